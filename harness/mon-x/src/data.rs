//! What the tables of units and constants should say (values in SI, after Klein & Alvarado and NIST).

pub const UNITS: [(&str, &[(&str, f64)]); 31] = [
    ("LENGTH", &[
        ("m", 1.0), ("meter", 1.0), ("metre", 1.0), ("Angstrom", 1e-10), ("nm", 1e-09), ("ft", 0.3048), ("dm", 0.1),
        ("in", 0.0254), ("inch", 0.0254), ("mm", 0.001), ("micron", 1e-06), ("micrometer", 1e-06), ("nanometer", 1e-09),
        ("millimeter", 0.001), ("cm", 0.01), ("km", 1000.0), ("yd", 0.9144), ("yard", 0.9144), ("mi", 1609.344),
        ("mile", 1609.344), ("miles", 1609.344), ("fathom", 1.8288), ("mil", 2.54e-05), ("rod", 5.0292), ("furlong", 201.168),
        ("league", 5556.0), ("hectometer", 100.0),
    ]),
    ("MASS", &[
        ("kg", 1.0), ("lbm", 0.453592374), ("lb_m", 0.453592374), ("g", 0.001), ("ton", 907.184749), ("grain", 6.4799e-05),
        ("mg", 1e-06), ("oz", 0.028349523), ("ozm", 0.028349523), ("slug", 14.593881), ("stone", 6.350293236),
        ("amu", 1.660531e-27), ("microgram", 1e-09), ("mt", 1000.0), ("tonne", 1000.0),
    ]),
    ("MOLES", &[
        ("kgmole", 1.0), ("kgmol", 1.0), ("kmole", 1.0), ("kmol", 1.0), ("lbmole", 0.453592374), ("lbmol", 0.453592374),
        ("gmole", 0.001), ("gmol", 0.001), ("mole", 0.001), ("mol", 0.001),
    ]),
    ("TIME", &[
        ("s", 1.0), ("sec", 1.0), ("second", 1.0), ("min", 60.0), ("minute", 60.0), ("h", 3600.0), ("hr", 3600.0),
        ("hour", 3600.0), ("day", 86400.0), ("days", 86400.0), ("week", 604800.0), ("weeks", 604800.0), ("fortnight", 1209600.0),
        ("year", 31556952.0), ("yr", 31556952.0), ("years", 31556952.0), ("millisec", 0.001), ("microsec", 1e-06),
    ]),
    ("FREQUENCY", &[
        ("cps", 1.0), ("cpm", 0.016666667), ("Bq", 1.0), ("ci", 37000000000.0), ("Hz", 1.0),
    ]),
    ("TEMPERATURE", &[
        ("K", 1.0), ("C", 1.0), ("R", 0.55555556), ("F", 0.55555556),
    ]),
    ("TEMP. DIFFERENCE", &[
        ("DELTAK", 1.0), ("DELTAC", 1.0), ("DELTAF", 0.55555556), ("DELTAR", 0.55555556),
    ]),
    ("VELOCITY", &[
        ("mph", 0.44704), ("knot", 0.51444), ("m/s", 1.0), ("km/s", 1000.0), ("ft/s", 0.3048), ("kph", 0.2777778),
        ("km/h", 0.2777778),
    ]),
    ("AREA", &[
        ("sqm", 1.0), ("sqcm", 0.0001), ("sqft", 0.09290304), ("sqin", 0.00064516), ("acre", 4046.856), ("hectare", 10000.0),
        ("barn", 1e-28),
    ]),
    ("VOLUME", &[
        ("gal", 0.0037854118), ("gallon", 0.0037854118), ("l", 0.001), ("L", 0.001), ("Bu", 0.03523907016688), ("ml", 1e-06),
        ("milliliter", 1e-06), ("microliter", 1e-09), ("liter", 0.001), ("quart", 0.0009463264), ("oz", 2.9572702e-05),
        ("ozv", 2.9572702e-05), ("pint", 0.000473163), ("bbl", 0.1589873),
    ]),
    ("VOLUMETRIC FLOW", &[
        ("cfm", 0.00047194744), ("gph", 1.051503e-06), ("gpm", 6.30902e-05),
    ]),
    ("FORCE", &[
        ("N", 1.0), ("kN", 1000.0), ("lbf", 4.448222), ("lb_f", 4.448222), ("dyne", 1e-05), ("kgf", 9.80665), ("kg_f", 9.80665),
    ]),
    ("PRESSURE", &[
        ("Pa", 1.0), ("milliPa", 0.001), ("microPa", 1e-06), ("kPa", 1000.0), ("MPa", 1000000.0), ("GPa", 1000000000.0),
        ("gigaPa", 1000000000.0), ("bar", 100000.0), ("milliBar", 100.0), ("atm", 101325.0), ("psia", 6894.75788958),
        ("psi", 6894.75788958), ("ksi", 6894757.88958), ("psig", 6894.75788958), ("psf", 47.88055555), ("mmH2O", 9.80665),
        ("mH2O", 9806.65), ("mmHg", 133.3224), ("inHg", 3386.388), ("torr", 133.3224), ("inH2O", 249.088), ("in.H2O", 249.088),
        ("ftH2O", 2989.057),
    ]),
    ("ENERGY", &[
        ("J", 1.0), ("milliJ", 0.001), ("kJ", 1000.0), ("MJ", 1000000.0), ("Wh", 3600.0), ("Whr", 3600.0), ("kWh", 3600000.0),
        ("kWhr", 3600000.0), ("MWh", 3600000000.0), ("MWhr", 3600000000.0), ("GWh", 3600000000000.0), ("GWhr", 3600000000000.0),
        ("GJ", 1000000000.0), ("Btu", 1055.056), ("MBtu", 1055056000.0), ("MMBtu", 1055056000.0), ("kBtu", 1055056.0),
        ("cal", 4.1868), ("kcal", 4186.8), ("erg", 1e-07), ("ev", 1.60207e-19), ("eV", 1.60207e-19), ("keV", 1.60207e-16),
        ("kev", 1.60207e-16), ("mev", 1.60207e-13), ("meV", 1.60207e-13), ("bev", 1.60207e-10), ("beV", 1.60207e-10),
        ("therm", 105505600.0), ("therms", 105505600.0), ("quad", 1.055056e+18), ("quads", 1.055056e+18),
    ]),
    ("POWER", &[
        ("W", 1.0), ("hp", 745.7), ("ton", 3516.852), ("tons", 3516.852), ("microW", 1e-06), ("milliW", 0.001), ("kW", 1000.0),
        ("MW", 1000000.0), ("MegaW", 1000000.0), ("gW", 1000000000.0), ("gigaW", 1000000000.0),
    ]),
    ("VISCOSITY-DYNAMIC", &[
        ("poise", 0.1), ("centipoise", 0.001), ("micropoise", 1e-07), ("cp", 0.001), ("Reyn", 6894.7),
    ]),
    ("VISCOSITY-KINEMATIC", &[
        ("Stoke", 0.0001), ("centiStoke", 1e-06),
    ]),
    ("ANGLES", &[
        ("radian", 1.0), ("radians", 1.0), ("rad", 1.0), ("deg", 0.017453293), ("degree", 0.017453293), ("degrees", 0.017453293),
        ("rev", 6.28318530718), ("revs", 6.28318530718), ("revolutions", 6.28318530718), ("minute", 0.000290888),
        ("quadrant", 1.5707963), ("cycle", 6.28318530718), ("cycles", 6.28318530718),
    ]),
    ("CHARGE", &[
        ("Coulomb", 1.0), ("Faraday", 96517.844), ("Abcoulomb", 10.0),
    ]),
    ("ELECTRICAL CAPACITANCE", &[
        ("Farad", 1.0), ("pFarad", 1e-12), ("pF", 1e-12),
    ]),
    ("DIPOLE MOMENT", &[
        ("Debye", 3.33564e-30),
    ]),
    ("CURRENT", &[
        ("Amp", 1.0), ("Ampere", 1.0), ("A", 1.0),
    ]),
    ("ELECTRICAL RESISTANCE", &[
        ("ohm", 1.0), ("kohm", 1000.0),
    ]),
    ("ELECTROMOTIVE FORCE", &[
        ("Volt", 1.0), ("millivolt", 0.001), ("kV", 1000.0), ("MegaVolt", 1000000.0), ("v", 1.0),
    ]),
    ("INDUCTANCE", &[
        ("Henry", 1.0),
    ]),
    ("NON DIMENSIONAL", &[
        ("-", 1.0), ("space", 1.0), ("Percent", 0.01), ("%", 0.01), ("person", 1.0), ("persons", 1.0), ("ppm", 1e-06),
        ("ppb", 1e-09), ("any", 1.0),
    ]),
    ("MAGNETIC FLUX DENSITY", &[
        ("Gauss", 0.0001), ("G", 0.0001), ("Tesla", 1.0), ("T", 1.0),
    ]),
    ("MAGNETIC FLUX", &[
        ("Maxwell", 1e-08), ("Mx", 1e-08), ("Weber", 1.0), ("Wb", 1.0),
    ]),
    ("MAGNETIC FIELD STRENGTH", &[
        ("Oersted", 79.5774715459), ("Oe", 79.5774715459),
    ]),
    ("ILLUMINANCE", &[
        ("lm", 1.0),
    ]),
    ("ILLUMINANCE FLUX", &[
        ("lux", 1.0), ("ftcndl", 10.763910417), ("mcndl", 1.0),
    ]),
];

pub const CONSTANTS: [(&str, f64); 49] = [
    ("#NA", 6.022169e+26), // Avogadro's constant, 1/kmol
    ("#h_NH3", -46190.0), // Ammonia (gas) enthalpy of formation (25C, 77F), kJ/kmol
    ("#e", 1.6021917e-19), // Electron charge, Coulomb
    ("#h_C2H4", 52280.0), // Ethylene enthalpy of formation (25C, 77F), kJ/kmol
    ("#g", 9.807), // Gravitational acceleration (sea level), m/s^2
    ("#F", 96486700.0), // Faraday's constant, Coulomb/kmol
    ("#gc", 6.6732e-11), // Gravitational constant, N-m^2/kg^2
    ("#h_CH2", 226730.0), // Acetylene enthalpy of formation (25C, 77F), kJ/kmol
    ("#r_e", 2.817939e-15), // Classical electron radius, m
    ("#h_C6H6", 82930.0), // Benzene (gas) enthalpy of formation (25C, 77F), kJ/kmol
    ("#C1", 374200000.0), // Blackbody radiation constant 1, W-micrometer^4/m^2
    ("#k", 1.380622e-23), // Boltzmann's constant, J/K
    ("#Black", 0.0), // the color black, 0
    ("#White", 16777215.0), // the color white, 16777215
    ("#h_C2H5OH_g", -235310.0), // Ethanol (gas) enthalpy of formation (25C, 77F), kJ/kmol
    ("#epsilon_o", 8.85418782e-12), // Permittivity of free space, Farads/m
    ("#true", 1.0), // true# and false# are used in logic tests, 1
    ("#false", 0.0), // true# and false# are used in logic tests, 0
    ("#e_Me", 175880280000.0), // Electron charge to mass ratio, Coulomb/kg
    ("#C2", 14388.0), // Blackbody radiation constant 2, micrometer-K
    ("#h_C2H5OH_l", -277690.0), // Ethanol (liq) enthalpy of formation (25C, 77F), kJ/kmol
    ("#Me", 9.109558e-31), // Electron rest mass, kg
    ("#Red", 255.0), // red, 255
    ("#C3", 2897.7), // Blackbody radiation constant 3, micrometer-K
    ("#h_C8H18_l", -249950.0), // n-Octane (liq) enthalpy of formation (25C, 77F), kJ/kmol
    ("#h_CH3OH_l", -238660.0), // Methanol (liq) enthalpy of formation (25C, 77F), kJ/kmol
    ("#h_C8H18_g", -208450.0), // n-Octane (gas) enthalpy of formation (25C, 77F), kJ/kmol
    ("#T_zero", 273.15), // T_zero# + C (or F) = K (or R), K
    ("#Mn", 1.67492e-27), // Neutron rest mass, kg
    ("#Po", 101.325), // Normal atmospheric pressure, kPa
    ("#R_inf", 10973730.0), // Rydberg constant, 1/m
    ("#h_C3H6_g", -20410.0), // Propylene (gas) enthalpy of formation (25C, 77F), kJ/kmol
    ("#Mp", 1.672614e-27), // Proton rest mass, kg
    ("#h", 6.62606957e-34), // Planck's constant, J-s
    ("#Vo", 22.4136), // Volume of ideal gas, standard conditions, m^3/kmol
    ("#Blue", 16711680.0), // the color blue, 16711680
    ("#R", 8.31434), // Gas constant, kJ/kmol-K
    ("#SndSpeed", 331.36), // speed of sound in dry air at 0 C and 1 atm, m/s
    ("#sigma", 5.670373e-08), // Stefan-Boltzmann constant, W/m^2-K^4
    ("#h_CH3OH_g", -200670.0), // Methanol (gas) enthalpy of formation (25C, 77F), kJ/kmol
    ("#h_H2O2", -136310.0), // Hydrogen peroxide (gas) enthalpy of formation (25C, 77F), kJ/kmol
    ("#G_sc", 1367.0), // Solar constant, W/m^2
    ("#h_fg_water", 2441.5), // Enthalpy of vaporization of water (25C, 77F), kJ/kg
    ("#U", 1.660531e-27), // Unified atomic mass unit, kg
    ("#Yellow", 65535.0), // the color yellow, 65535
    ("#C", 299792500.0), // Speed of light in a vacuum, m/s
    ("#Green", 65280.0), // the color green, 65280
    ("#pi", 3.14159265359), // pi, -
    ("#muo", 1.25663705e-06), // Permeability of free space, N/amp^2
];

/// More recent values of constants that were measured again (or defined) since.
pub const RECENT: [(&str, f64); 24] = [
    ("#NA", 6.02214076e26), ("#e", 1.602176634e-19), ("#g", 9.80665), ("#F", 9.648533212e7), ("#gc", 6.67430e-11), ("#r_e", 2.8179403e-15),
    ("#C1", 3.741771852e8), ("#k", 1.380649e-23), ("#epsilon_o", 8.8541878128e-12), ("#e_Me", 1.75882001e11), ("#C2", 14387.76877),
    ("#Me", 9.1093837e-31), ("#C3", 2897.771955), ("#Mn", 1.67492750e-27), ("#R_inf", 1.0973731568e7), ("#Mp", 1.67262192e-27),
    ("#h", 6.62607015e-34), ("#Vo", 22.41396954), ("#R", 8.314462618), ("#sigma", 5.670374419e-8), ("#G_sc", 1361.0), ("#U", 1.66053907e-27),
    ("#C", 299792458.0), ("#muo", 1.25663706e-6),
];
