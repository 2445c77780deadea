"""Published F-16 data (Stevens & Lewis, appendix A): rows as printed, one column per grid value of the first argument."""
from fractions import Fraction as F


CL = """
0 0 0 0 0 0 0 0 0 0 0 0
-.001 -.004 -.008 -.012 -.016 -.022 -.022 -.021 -.015 -.008 -.013 -.015
-.003 -.009 -.017 -.024 -.030 -.041 -.045 -.040 -.016 -.002 -.010 -.019
-.001 -.010 -.020 -.030 -.039 -.054 -.057 -.054 -.023 -.006 -.014 -.027
.000 -.010 -.022 -.034 -.047 -.060 -.069 -.067 -.033 -.036 -.035 -.035
.007 -.010 -.023 -.034 -.049 -.063 -.081 -.079 -.060 -.058 -.062 -.059
.009 -.011 -.023 -.037 -.050 -.068 -.089 -.088 -.091 -.076 -.077 -.076
"""
CN = """
0 0 0 0 0 0 0 0 0 0 0 0
.018 .019 .018 .019 .019 .018 .013 .007 .004 -.014 -.017 -.033
.038 .042 .042 .042 .043 .039 .030 .017 .004 -.035 -.047 -.057
.056 .057 .059 .058 .058 .053 .032 .012 .002 -.046 -.071 -.073
.064 .077 .076 .074 .073 .057 .029 .007 .012 -.034 -.065 -.041
.074 .086 .093 .089 .080 .062 .049 .022 .028 -.012 -.002 -.013
.079 .090 .106 .106 .096 .080 .068 .030 .064 .015 .011 -.001
"""
CX = """
-.099 -.081 -.081 -.063 -.025 .044 .097 .113 .145 .167 .174 .166
-.048 -.038 -.040 -.021 .016 .083 .127 .137 .162 .177 .179 .167
-.022 -.020 -.021 -.004 .032 .094 .128 .130 .154 .161 .155 .138
-.040 -.038 -.039 -.025 .006 .062 .087 .085 .100 .110 .104 .091
-.083 -.073 -.076 -.072 -.046 .012 .024 .025 .043 .053 .047 .040
"""
CM = """
.205 .168 .186 .196 .213 .251 .245 .238 .252 .231 .198 .192
.081 .077 .107 .110 .110 .141 .127 .119 .133 .108 .081 .093
-.046 -.020 -.009 -.005 -.006 .010 .006 -.001 .014 .000 -.013 .032
-.174 -.145 -.121 -.127 -.129 -.102 -.097 -.113 -.087 -.084 -.069 -.006
-.259 -.202 -.184 -.193 -.199 -.150 -.160 -.167 -.104 -.076 -.041 -.005
"""
CZ = """
.770 .241 -.100 -.415 -.731 -1.053 -1.355 -1.646 -1.917 -2.120 -2.248 -2.229
"""
DAMPP = """
-.267 -.110 .308 1.34 2.08 2.91 2.76 2.05 1.50 1.49 1.83 1.21
.882 .852 .876 .958 .962 .974 .819 .483 .590 1.21 -.493 -1.04
-.108 -.108 -.188 .110 .258 .226 .344 .362 .611 .529 .298 -2.27
-8.80 -25.8 -28.9 -31.4 -31.2 -30.7 -27.7 -28.2 -29.0 -29.8 -38.3 -35.3
-.126 -.026 .063 .113 .208 .230 .319 .437 .680 .100 .447 -.330
-.360 -.359 -.443 -.420 -.383 -.375 -.329 -.294 -.230 -.210 -.120 -.100
-7.21 -.540 -5.23 -5.26 -6.11 -6.64 -5.69 -6.00 -6.20 -6.40 -6.60 -6.00
-.380 -.363 -.378 -.386 -.370 -.453 -.550 -.582 -.595 -.637 -1.02 -.840
.061 .052 .052 -.012 -.013 -.024 .050 .150 .130 .158 .240 .150
"""
DLDA = """
-.041 -.052 -.053 -.056 -.050 -.056 -.082 -.059 -.042 -.038 -.027 -.017
-.041 -.053 -.053 -.053 -.050 -.051 -.066 -.043 -.038 -.027 -.023 -.016
-.042 -.053 -.052 -.051 -.049 -.049 -.043 -.035 -.026 -.016 -.018 -.014
-.040 -.052 -.051 -.052 -.048 -.048 -.042 -.037 -.031 -.026 -.017 -.012
-.043 -.049 -.048 -.049 -.043 -.042 -.042 -.036 -.025 -.021 -.016 -.011
-.044 -.048 -.048 -.047 -.042 -.041 -.020 -.028 -.013 -.014 -.011 -.010
-.043 -.049 -.047 -.045 -.042 -.037 -.003 -.013 -.010 -.003 -.007 -.008
"""
DLDR = """
.005 .017 .014 .010 -.005 .009 .019 .005 -.000 -.005 -.011 .008
.007 .016 .014 .014 .013 .009 .012 .005 .000 .004 .009 .007
.013 .013 .011 .012 .011 .009 .008 .005 -.002 .005 .003 .005
.018 .015 .015 .014 .014 .014 .014 .015 .013 .011 .006 .001
.015 .014 .013 .013 .012 .011 .011 .010 .008 .008 .007 .003
.021 .011 .010 .011 .010 .009 .008 .010 .006 .005 .000 .001
.023 .010 .011 .011 .011 .010 .008 .010 .006 .014 .020 .000
"""
DNDA = """
.001 -.027 -.017 -.013 -.012 -.016 .001 .017 .011 .017 .008 .016
.002 -.014 -.016 -.016 -.014 -.019 -.021 .002 .012 .016 .015 .011
-.006 -.008 -.006 -.006 -.005 -.008 -.005 .007 .004 .007 .006 .006
-.011 -.011 -.010 -.009 -.008 -.006 .000 .004 .007 .010 .004 .010
-.015 -.015 -.014 -.012 -.011 -.008 -.002 .002 .006 .012 .011 .011
-.024 -.010 -.004 -.002 -.001 .003 .014 .006 -.001 .004 .004 .006
-.022 .002 -.003 -.005 -.003 -.001 -.009 -.009 -.001 .003 -.002 .001
"""
DNDR = """
-.018 -.052 -.052 -.052 -.054 -.049 -.059 -.051 -.030 -.037 -.026 -.013
-.028 -.051 -.043 -.046 -.045 -.049 -.057 -.052 -.030 -.033 -.030 -.008
-.037 -.041 -.038 -.040 -.040 -.038 -.037 -.030 -.027 -.024 -.019 -.013
-.048 -.045 -.045 -.045 -.044 -.045 -.047 -.048 -.049 -.045 -.033 -.016
-.043 -.044 -.041 -.041 -.040 -.038 -.034 -.035 -.035 -.029 -.022 -.009
-.052 -.034 -.036 -.036 -.035 -.028 -.024 -.023 -.020 -.016 -.010 -.014
-.062 -.034 -.027 -.028 -.027 -.027 -.023 -.023 -.019 -.009 -.025 -.010
"""
THRUST_IDLE = """
1060 670 880 1140 1500 1860
635 425 690 1010 1330 1700
60 25 345 755 1130 1525
-1020 -170 -300 350 910 1360
-2700 -1900 -1300 -247 600 1100
-3600 -1400 -595 -342 -200 700
"""
THRUST_MIL = """
12680 9150 6200 3950 2450 1400
12680 9150 6313 4040 2470 1400
12610 9312 6610 4290 2600 1560
12640 9839 7090 4660 2840 1660
12390 10176 7750 5320 3250 1930
11680 9848 8050 6100 3800 2310
"""
THRUST_MAX = """
20000 15000 10800 7000 4000 2500
21420 15700 11225 7323 4435 2600
22700 16860 12250 8154 5000 2835
24240 18910 13760 9285 5700 3215
26070 21075 15975 11115 6860 3950
28886 23319 18300 13484 8642 5057
"""


def table(text):
    """rows of exact numbers"""
    return [[F(x) for x in l.split()] for l in text.strip().splitlines()]

# LQR gains and trim point of the low-level controller
K_LONG = '-156.8801506723475 -31.037008068526642 -38.72983346216317'
K_LAT = """
37.84483 -25.40956 -6.82876 -332.88343 -17.15997
-23.91233 5.69968 -21.63431 64.49490 -88.36203
"""
XEQ = '502.0 0.0389 0.0 0.0 0.0389 0.0 0.0 0.0 0.0 0.0 0.0 1000.0 9.0567'
UEQ = '0.1395 -0.7496 0.0 0.0'

# Morelli (1998) polynomial coefficients
MORELLI = """
a -1.943367e-2 2.136104e-1 -2.903457e-1 -3.348641e-3 -2.060504e-1 6.988016e-1 -9.035381e-1
b 4.833383e-1 8.644627 1.131098e1 -7.422961e1 6.075776e1
c -1.145916 6.016057e-2 1.642479e-1
d -1.006733e-1 8.679799e-1 4.260586 -6.923267
e 8.071648e-1 1.189633e-1 4.177702 -9.162236
f -1.378278e-1 -4.211369 4.775187 -1.026225e1 8.399763 -4.354000e-1
g -3.054956e1 -4.132305e1 3.292788e2 -6.848038e2 4.080244e2
h -1.05853e-1 -5.776677e-1 -1.672435e-2 1.357256e-1 2.172952e-1 3.464156 -2.835451 -1.098104
i -4.126806e-1 -1.189974e-1 1.247721 -7.391132e-1
j 6.250437e-2 6.067723e-1 -1.101964 9.100087 -1.192672e1
k -1.463144e-1 -4.07391e-2 3.253159e-2 4.851209e-1 2.978850e-1 -3.746393e-1 -3.213068e-1
l 2.635729e-2 -2.192910e-2 -3.152901e-3 -5.817803e-2 4.516159e-1 -4.928702e-1 -1.579864e-2
m -2.029370e-2 4.660702e-2 -6.012308e-1 -8.062977e-2 8.320429e-2 5.018538e-1 6.378864e-1 4.226356e-1
n -5.19153 -3.554716 -3.598636e1 2.247355e2 -4.120991e2 2.411750e2
o 2.993363e-1 6.594004e-2 -2.003125e-1 -6.233977e-2 -2.107885 2.141420 8.476901e-1
p 2.677652e-2 -3.298246e-1 1.926178e-1 4.013325 -4.404302
q -3.698756e-1 -1.167551e-1 -7.641297e-1
r -3.348717e-2 4.276655e-2 6.573646e-3 3.535831e-1 -1.373308 1.237582 2.302543e-1 -2.512876e-1 1.588105e-1 -5.199526e-1
s -8.115894e-2 -1.156580e-2 2.514167e-2 2.038748e-1 -3.337476e-1 1.004297e-1
"""


def row(text):
    return [F(x) for x in text.split()]


def morelli():
    return {l.split()[0]: [F(x) for x in l.split()[1:]] for l in MORELLI.strip().splitlines()}
