"""names of the units and prefixes pint's default registry defines"""
UNITS = frozenset("""
A A_90 A_US A_it Ah At B BDFT BF BTU Ba Bd Bi Bq Btu Btu_iso Btu_it Btu_th C C_90 Ci Cl D DPI Da ECC EC_therm E_h Eh F FBM F_90 Fr G G_0 Gal
Gb Gy H H2O H_90 Hg Hg_0C Hg_32F Hg_60F Hz J K KPH K_J K_J90 K_alpha_Cu_d_220 K_alpha_Mo_d_220 K_alpha_W_d_220 L Ly M MPH Mx N N_A Ne NeC Nm
Np Oe P PPCM PPI PSH Pa Phi_0 R RKM R_K R_K90 R_inf Rd Ry S SPL St Sv T Ta Td Tj Tt U UK_bbl UK_bushel UK_cup UK_cwt UK_fluid_ounce
UK_force_ton UK_gallon UK_gill UK_horsepower UK_hundredweight UK_pint UK_pk UK_quart UK_ton UK_ton_force US_cwt US_dry_barrel US_dry_gallon
US_dry_pint US_dry_quart US_fluid_dram US_fluid_ounce US_force_ton US_hundredweight US_international_ampere US_international_ohm
US_international_volt US_liquid_cup US_liquid_dram US_liquid_fifth US_liquid_gallon US_liquid_gill US_liquid_ounce US_liquid_quart US_pint
US_shot US_therm US_ton US_ton_force V VA V_90 V_US V_it W W_90 Wb Wh Xu_Cu Xu_Mo Z_0 a a0 a_0 a_u_action a_u_current a_u_electric_field
a_u_energy a_u_force a_u_intensity a_u_length a_u_mass a_u_temp a_u_time abA abC abF abH abS abV abampere abcoulomb aberdeen abfarad abhenry
abmho abohm absiemens abvolt acre acre_feet acre_foot alpha amp ampere ampere_hour ampere_turn amu angstrom angstrom_star angular_degree
angular_minute angular_second ap_dr ap_lb ap_oz apothecary_dram apothecary_ounce apothecary_pound arc_minute arc_second arcdeg arcdegree
arcmin arcminute arcsec arcsecond are astronomical_unit at atm atm_l atmosphere atmosphere_liter atomic_mass_constant atomic_unit_of_action
atomic_unit_of_current atomic_unit_of_electric_field atomic_unit_of_energy atomic_unit_of_force atomic_unit_of_intensity
atomic_unit_of_length atomic_unit_of_mass atomic_unit_of_temperature atomic_unit_of_time au avdp_dram avdp_ounce avdp_pound
avogadro_constant avogadro_number avoirdupois_dram avoirdupois_ounce avoirdupois_pound b bag bar barad barie barn barrel barrie baryd barye
baud bbl becquerel beer_barrel beer_bbl big_point biot biot_turn bit bits_per_pixel blob board_feet board_foot bohr bohr_magneton
bohr_radius boiler_horsepower boltzmann_constant bp bpp bps british_thermal_unit bu buckingham bushel byte c c_0 c_1 c_2 cables_length cal
cal_15 cal_it cal_th calorie candela candle carat cc cd celsius centimeter_H2O centimeter_Hg centimeter_Hg_0C centuries century chain
characteristic_impedance_of_vacuum cicero circle circular_mil classical_electron_radius clausius cmH2O cmHg cm_1 cm_H2O cm_Hg cmil
common_year conductance_quantum conventional_ampere_90 conventional_coulomb_90 conventional_farad_90 conventional_henry_90
conventional_josephson_constant conventional_mercury conventional_ohm_90 conventional_volt_90 conventional_von_klitzing_constant
conventional_water conventional_watt_90 cooling_tower_ton coulomb coulomb_constant count counts_per_second cp cps css_pixel ct cu_ft cu_in
cu_yd cubic_centimeter cubic_feet cubic_foot cubic_inch cubic_yard cup curie cwt cycle d dB dBm dBu d_220 dalton darcy day debye decade
decibel decibelmicrowatt decibelmilliwatt deg degC degF degK degR degRe degree degreeC degreeF degreeK degreeR degreeRe degree_Celsius
degree_Fahrenheit degree_Kelvin degree_Rankine degree_Reaumur den denier dgal didot dirac_constant dot dots_per_inch dpi dqt dr drachm dram
dry_barrel dry_gallon dry_pint dry_quart dtex dwt dyn dyne e eV electric_constant electrical_horsepower electron_g_factor electron_mass
electron_volt elementary_charge entropy_unit enzyme_unit enzymeunit eon eps0 eps_0 epsilon_0 erg esu eu eulers_number fahrenheit farad
faraday faraday_constant fathom feet feet_H2O fermi fifteen_degree_calorie fifth fine_structure_constant first_radiation_constant fldr floz
fluid_dram fluid_ounce fluidram fm foot foot_H2O foot_per_second foot_pound footpound force_gram force_kilogram force_long_ton
force_metric_ton force_ounce force_pound force_short_ton force_t force_ton fortnight fps franklin ft ftH2O ft_lb fur furlong g g0 g_0 g_e
g_n gal galileo gallon gamma gamma_mass gauss gf gi gilbert gill gon gr grad grade grain gram gram_force gravitational_constant gravity gray
gregorian_year group h ha hand hartree hartree_energy hbar hectare henry hertz hogshead horsepower hour hp hr hundredweight
hydraulic_horsepower impedance_of_free_space imperial_barrel imperial_bbl imperial_bu imperial_bushel imperial_cp imperial_cup imperial_fldr
imperial_floz imperial_fluid_drachm imperial_fluid_dram imperial_fluid_ounce imperial_fluid_scruple imperial_gal imperial_gallon imperial_gi
imperial_gill imperial_minim imperial_peck imperial_pint imperial_pk imperial_pt imperial_qt imperial_quart in inHg in_Hg inch inch_H2O_39F
inch_H2O_60F inch_Hg inch_Hg_32F inch_Hg_60F inches international_british_thermal_unit international_calorie international_feet
international_foot international_inch international_inches international_knot international_mile international_steam_table_calorie
international_yard jig josephson_constant joule julian_year jute k k_B k_C karat kat katal kayser kelvin kgf kilogram_force
kilometer_per_hour kilometer_per_second kip kip_per_square_inch knot knot_international kph kps ksi kt l lambda lambert langley
lattice_spacing_of_Si lb lbf lbt league leap_year li light_year lightyear link liquid_cup liquid_gallon liquid_gill liquid_pint liquid_quart
liter litre lm ln10 long_hundredweight long_ton long_ton_force lumen lunar_month lux lx ly m m_e m_n m_p m_u magnetic_constant
magnetic_flux_quantum mas maxwell mean_international_ampere mean_international_ohm mean_international_volt mercury mercury_60F meter
meter_per_second metre metric_horsepower metric_ton metric_ton_force mho mi micron mil mil_length mile mile_per_hour millennia millennium
milliarcsecond millimeter_Hg millimeter_Hg_0C min minim minute mmHg mm_Hg mol molar molar_gas_constant mole molec molecule month mph mps mu0
mu_0 mu_B mu_N nautical_mile neper neutron_mass newton newtonian_constant_of_gravitation nit nmi nuclear_magneton number_english
number_meter oct octave octet oersted ohm ohm_90 ohm_US ohm_it oil_barrel oil_bbl ounce ounce_force oz ozf ozt parsec particle pascal pc pdl
peak_sun_hour peck pel pennyweight percent perch pi pica picture_element pint pixel pixels_per_centimeter pixels_per_inch pk planck_constant
planck_current planck_length planck_mass planck_temperature planck_time point poise pole pond pound pound_force pound_force_per_square_inch
poundal pp ppi ppm printers_dpi printers_pica printers_point proton_mass psi pt px qt quad quadrillion_Btu quart quarter r_e rad radian rads
rankine rd reaumur reciprocal_centimeter refrigeration_ton rem revolution revolutions_per_minute revolutions_per_second reyn rhe rod
roentgen rpm rps rutherford rydberg rydberg_constant s scaled_point scruple sec second second_radiation_constant section sft shake
short_hundredweight short_ton short_ton_force shot sidereal_day sidereal_month sidereal_year siemens sievert sigma sigma_e slinch slm slpm
slug slugette smi sound_pressure_level speed_of_light sq_deg sq_ft sq_in sq_mi sq_perch sq_pole sq_rod sq_yd sqdeg square_degree square_feet
square_foot square_inch square_inches square_league square_mile square_rod square_survey_mile square_yard sr standard_atmosphere
standard_gravity standard_liter_per_minute statA statC statF statH statT statV statWb statampere statcoulomb statfarad stathenry statmho
statohm stattesla statvolt statweber stefan_boltzmann_constant steradian stere stilb stokes stone super_feet super_foot superficial_feet
superficial_foot survey_foot survey_link survey_mile sv svedberg sverdrup synodic_month system t tTNT t_force tablespoon tansec tbsp
teaspoon technical_atmosphere tesla tex tex_cicero tex_didot tex_pica tex_point tf th therm thermochemical_british_thermal_unit
thermochemical_calorie thm thomson_cross_section thou tlb toe ton ton_TNT ton_force ton_of_refrigeration tonne tonne_of_oil_equivalent torr
townsend toz tropical_month tropical_year troy_ounce troy_pound tsp turn u unified_atomic_mass_unit unit_pole us_statute_mile
vacuum_permeability vacuum_permittivity volt volt_ampere von_klitzing_constant water water_39F water_4C water_60F watt watt_hour watthour
weber week wien_frequency_displacement_law_constant wien_u wien_wavelength_displacement_law_constant wien_x x_unit_Cu x_unit_Mo yard yd year
yr zeta
""".split())
PREFIXES = frozenset("""
E Ei G Gi Ki M Mi P Pi Q R T Ti Y Yi Z Zi a atto c centi d da deca deci deka demi exa exbi f femto gibi giga h hecto k kibi kilo m mebi mega
micro milli n nano p pebi peta pico q quecto quetta r ronna ronto semi sesqui tebi tera u y yobi yocto yotta z zebi zepto zetta
""".split())
