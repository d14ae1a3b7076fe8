"""The properties, in the form they are published in (properties.jsonl) and claimed (MANIFEST.json)."""


def P(id, title, statement, over, text, why, files, mechanism, technique, note, **kw):
    a = {"files": files, "mechanism": mechanism}
    a.update(kw)
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a, "technique": technique, "level_note": note}


TV = "TLA+ specification model-checked with TLC; traces recorded from the library validated against it with TLC"
NOTE = ("Every recorded call is judged by the specification; the specification itself is model-checked. Holds for what was "
        "explored (counts in the evidence file); trusts TLC, the compiler, and the lossless recording of arguments and results. ")

PROPS = [
    P("C01", "Calendar conversions are exact day clocks in all nine calendars",
      "In each of the nine calendars (Gregorian, Julian, combined Julian/Gregorian, Hebrew, Islamic, French revolutionary, "
      "Persian (Jalaali), modern Persian, Chinese) day_to_dmy() gives every Julian day in the calendar's range exactly one date, "
      "the dates of successive days follow each other by that calendar's rules for month lengths, leap years and year starts (with no "
      "day skipped or repeated except 5-14 October 1582 in the combined calendar), and dmy_to_day() is its exact inverse, linear in the day number. "
      "days_in_month() and the Chinese intercalary month agree with the same rules; days and years outside the Persian and Chinese tables are refused (day -1, JD 0).",
      ["input"], "every integer JD and every date, before and after the epoch, in each calendar",
      "tests print a few dates; leap and postponement rules bite on single days centuries apart, before the epoch or at table edges",
      ["date.cpp", "date.h", "chinese.h", "chinese.dat"],
      ["get_*_year_data: year start and month lengths per calendar", "approx_year + correction loop in day_to_dmy",
       "dmy_to_day, days_in_month, JULIAN_GREGORIAN switch"], TV,
      NOTE + "Days -1.5 to 5.0 million of every calendar are walked without gaps (all of the table-driven ones), plus random far windows."),
    P("C02", "Packing a designation gives the MPC's twelve columns, or the literal name",
      "create_mpc_packed_desig() always yields exactly twelve characters: for every valid designation (numbered and provisional asteroids "
      "including the extended base-62 schemes, comets with kinds, numbers and fragments, survey objects, natural satellites by Arabic or Roman number, "
      "artificial satellites) the MPC's packed form with return 0, and for anything else return -1 and the name itself, in columns 6-12 if it has at most "
      "seven characters, else as '$' and its first eleven. The base-62 ('mutant hex') helpers it is built on are mutually inverse on every value and reject every other character.",
      ["input"], "every text, valid designation or not; every number up to 15396335; every base-62 value of up to five digits",
      "a hundred sampled designations cannot cover carries, limits and malformed names",
      ["mpc_fmt.cpp", "unpack.cpp"], ["create_mpc_packed_desig", "pack_permanent_natsat, pack_provisional_natsat", "encode_value_in_mutant_hex, get_mutant_hex_value"], TV, NOTE),
    P("C03", "Unpacking twelve columns recovers the designation and its class",
      "unpack_mpc_desig() classifies every twelve-column field and, for every packed designation, returns the readable designation it was packed from with the right class; "
      "fields that are no packed designation come back verbatim (surrounding blanks removed) as 'other' or, when they hold an international designator, 'artsat'. "
      "The class does not depend on whether text is asked for (NULL buffer) nor on what follows column 12, output is terminated and never overruns 25 bytes, and the unaligned variant gives the result of the same name put in its proper columns.",
      ["input"], "every twelve-character field, well-formed or damaged",
      "tests unpack fields that were produced by packing; damaged and combined fields reach other branches",
      ["unpack.cpp"], ["unpack_mpc_desig", "unpack_provisional_packed_desig", "unpack_unaligned_mpc_desig"], TV, NOTE),
    P("C04", "Every ADES observation becomes its own 80-column record and nothing else",
      "An ADES optical observation, given as an XML element or a PSV row with its columns in any order, is translated by ades2mpc into exactly its own lines: the 80-column record with the packed "
      "designation, time, RA, dec, magnitude, band, catalogue, reference, program and station in their columns; the second line for spacecraft and roving observers; and comment lines carrying what 80 columns cannot hold "
      "(sigmas, IDs, full-precision RA/dec/time/magnitude, tags, spacecraft velocity). The two notations of the same observation give the same lines, and no value of one observation ever shows up in another.",
      ["input", "history"], "every sequence of observations, every subset and order of fields within the ADES length limits, full-width values included",
      "tests translate a couple of sample files; leaks between observations and column collisions need particular sequences of optional fields",
      ["ades2mpc.cpp"], ["setup_observation / process_ades_tag / get_a_line state machine", "place_value, spacecraft position columns", "COM lines before the record"], TV,
      NOTE + "Domain: values within ADES limits, known PSV tags, mode/sys before positions."),
    P("C05", "ADES streams: sections, nesting errors and untranslated text",
      "Fed any sequence of lines, the translator keeps a bounded stack of open tags and reports closing a tag that is not open (-2), nesting too deep (-3) and an unterminated tag (-4) once, on the line that has it, then carries on; "
      "header items become COD/OBS/MEA/CON/COM lines, 80-column records and any other text outside ADES sections pass through unchanged (records with sigmas behind column 80 gain their Sigmas line), a PSV section ends at the first line "
      "that is not a row of it, free_ades2mpc_context() returns the number of tags still open, and fgets_with_ades_xlation() on a file gives line for line what xlate_ades2mpc() gives.",
      ["input", "history"], "every sequence of lines, well-formed or damaged, PSV, XML and 80-column records mixed",
      "tests have well-formed files only", ["ades2mpc.cpp"], ["xlate_ades2mpc", "check_for_psv_header, process_psv_line, process_psv_header", "fgets_with_ades_xlation"], TV,
      NOTE + "One observation or header value completed per line; what a nested <optical> gives is left open."),
    P("C06", "A time is written as exactly its date and time in the chosen format",
      "full_ctime()/full_ctimel() render every time in the requested calendar and layout: year/month/day order, month names or digits, day of year, day of week, leading zeroes, two-digit or no year, removed blanks or colons, "
      "to seconds, minutes, hours, days, Julian years, JD or MJD with any number of decimals. Digits are truncated (or rounded with FULL_CTIME_ROUNDING), carrying into the next second, day, month and year, never showing 60 seconds or a day that does not exist; "
      "names set with set_month_name()/set_day_of_week_name() are used from then on. split_time() gives the same date with fields inside their ranges, in every calendar.",
      ["input", "history"], "every time, format word and calendar, and every history of names set",
      "tests print a few dates; carries at unit boundaries, negative years and rare format bits are not sampled",
      ["miscell.cpp", "get_time.cpp", "date.cpp"], ["full_ctimel, show_remainder", "split_timel", "set_month_name, set_day_of_week_name"], TV,
      NOTE + "Times on a microsecond grid within 4 million days of 2000."),
    P("C07", "A typed date means the same time however it is written, and junk is refused",
      "get_time_from_string() gives each text the meaning its rules promise: dates in any field order that can be told apart (otherwise in the order the format asks for), month and day-of-week names, BC, two-digit years, days of year, decimal days, "
      "AM/PM, partial times, ISO/FITS, JD/MJD/decimal years/GPS weeks/UNIX seconds, 'now', lunar phases, and any chain of signed offsets, relative to the current time where fields are missing. What full_ctime() writes is read back as the same time. "
      "Texts that cannot be read leave the time unchanged where nothing was understood and set the documented codes (-1 to -6); no text whatever, of any length, crashes, hangs or writes outside the buffers.",
      ["input", "history"], "every text of any length, every current time, calendar and format",
      "the test lists have some fifty texts; field combinations, separators and offsets multiply",
      ["get_time.cpp", "date.cpp", "date.h"], ["get_time_from_stringl and its year/month/day inference", "collect_time_offset, check_for_bc", "find_nearest_lunar_phase_time"], TV,
      NOTE + "Excluded from reading back: Julian years, which are read as calendar years."),
    P("C08", "The time field of an 80-column record is read in every notation it may have",
      "extract_date_from_mpc_report() reads columns 16-32 of every 80-column record: YYYY MM DD.dddddd (blank or zero padded), CYYMMDD.ddd, CYYMMDD:HHMM[SS[sss]], JD and MJD, with any number of decimals, on the Julian calendar until "
      "4 October 1582 and the Gregorian one from the 15th, giving the time to the precision of the digits and the matching format code; radar observations are moved to the nearest whole second. "
      "Lines that are no record (length, column 13, station code) or whose time field has no date give zero; no line crashes it.",
      ["input"], "every 80-82 byte line, every format and number of decimals",
      "tests read a few lines of two formats", ["mpc_fmt.cpp"], ["extract_date_from_mpc_report"], TV,
      NOTE + "Months 1-12, days from 1; damaged fields that still hold digits are left open."),
    P("C09", "Right ascensions and declinations: fields read and written without loss",
      "get_ra_dec_from_mpc_report() reads RA and dec fields in all of their formats (hh mm ss.s, hh mm.m, decimal hours or degrees, packed digits, degrees minutes seconds), with the value, sign, format code and precision the digits say, and tells by its "
      "return code which of the two could not be read. output_angle_to_buff() and output_signed_angle_to_buff() write an angle rounded to the requested format, carrying into minutes and hours (never 60), in its fixed width; "
      "written text read again gives the same format and, to half a unit of the last decimal, the same value.",
      ["input"], "every angle, format and field",
      "tests check some formats for a few angles; carries and packed forms are not sampled", ["mpc_fmt.cpp", "mpc_fmt2.cpp"], ["get_ra_dec, get_ra_dec_from_mpc_report", "output_angle_to_buff, output_signed_angle_to_buff"], TV,
      NOTE + "Angles below 100 degrees / 24 hours; fields in none of the formats left open."),
    P("C10", "TD-UT, TD-UTC and TDB at every instant and in every state of their settings",
      "td_minus_ut() gives the Earth orientation file's TD-UT1 inside its span (continuous across leap seconds, interpolated by its cubic), otherwise the user's Delta-T definition where one covers the year, otherwise the polynomials before 1620, the table, "
      "and its extrapolation; td_minus_utc() gives UT before 1961, the official rates and steps until 1972, the announced leap seconds since, the nearest whole number of seconds to UT for predicted half-years, and no leap seconds beyond the date set as their end; "
      "tdb_minus_tdt()/tdb_minus_utc() add the periodic terms, in seconds. Whatever was loaded, defined or released before, only the present state matters: a failed load leaves no parameters behind and says why, a good one returns its last day, "
      "and get_earth_orientation_params() flags exactly the parameters it has no data for.",
      ["input", "history"], "every date, and every sequence of definitions, loads, releases and horizon settings",
      "tests print Delta-T for a few dates with no settings", ["delta_t.cpp", "eop_prec.cpp", "spline.cpp"],
      ["default_td_minus_ut, evaluate_delta_t_string, reset_td_minus_dt_string", "td_minus_utc, tdb_minus_utc", "load_earth_orientation_params, get_earth_orientation_params", "cubic_spline_interpolate_within_table"], TV,
      "Numbers are compared with a forty-digit evaluation of the specification (module Dec); tolerance 1e-7 s, 1e-9 s for UTC."),
    P("C11", "The minimizer keeps its bracket, never asks for a useless point, and ends",
      "From three points with the lowest in the middle, in any order, brent_min_init()/brent_min_next()/brent_min_add() narrow a bracket that always has the best point found strictly inside it and never loses the minimum of a function that has only one; "
      "every point asked for is finite, strictly inside the bracket and not the best point again; the best points are kept in order of value; it says it is done exactly when both sides of the bracket are within the tolerance, "
      "or the four best values within the y tolerance, and gets there in under two hundred steps whatever the function (flat, cusped, stepped, bumpy).",
      ["input", "history"], "every function finite on the bracket, every starting bracket and tolerance",
      "one interactive test program", ["brentmin.cpp"], ["brent_min_init, brent_min_next, brent_min_add", "cubic_min, fit_parabola"], TV,
      "BrentModel explores all functions on a small grid; the code's histories are compared exactly."),
    P("C12", "Interpolation meets its table, is exact for polynomials, flags extrapolation",
      "lagrange_interpolate_within_table() gives the value and slope at x of the polynomial through the n_pts entries nearest x, and the entry itself on a grid point; cubic_spline_interpolate_within_table() gives the cubic through the entries with slopes "
      "(next - previous)/2, and the error code 0, -1 or -2 according to how far x is from having two entries on either side; fit_parabola() passes through its three points. Nothing outside the table is read, whatever x.",
      ["input"], "every table, number of points and x, inside, at the ends, on grid points and outside",
      "no tests", ["spline.cpp", "brentmin.cpp"], ["lagrange_interpolate_within_table", "cubic_spline_interpolate_within_table", "fit_parabola"], TV, "Numbers are compared with a forty-digit evaluation of the specification (module Dec)."),
    P("C13", "Orbital elements and state vectors describe the same two-body motion",
      "comet_posn_and_vel() gives the position, distance and velocity of the Kepler orbit with the given elements at any time, and kepler() the root of Kepler's equation, for circles, ellipses, parabolas, hyperbolas and everything a hair from them, any orientation "
      "(in the plane, polar, retrograde) and any number of revolutions, to twelve digits; calc_classical_elements() turns any state vector that is not a straight fall into elements that give it back to nine digits, both through its vectors and through its angles. "
      "Compressed elements (setup_elems_from_ast_file) and the H-G phase correction follow their definitions. What was in the structure before does not matter.",
      ["input"], "every eccentricity, orientation, distance, mass and time",
      "tests run a few orbits through programs", ["astfuncs.cpp", "classel.cpp", "comets.h"],
      ["kepler, comet_posn_part_ii, comet_posn_and_vel", "setup_orbit_vectors, derive_quantities", "calc_classical_elements", "setup_elems_from_ast_file, phase_angle_correction_to_magnitude"], TV, "Numbers are compared with a forty-digit evaluation of the specification (module Dec)."),
    P("C14", "Sky coordinates: frames, precession, nutation, horizon, separations agree",
      "For any two years, setup_precession() and setup_ecliptic_precession() give the IAU 1976 rotation between them: a rigid rotation, the inverse when the years are swapped, and the product of going by way of any third year, whatever was asked for before; "
      "mean_obliquity(), nutation() (IAU 1980, every term with its rate) and green_sidereal_time() follow their series, and the matrices with nutation and Earth orientation are built of them. precess_ra_dec(), precess_pt(), the galactic and supergalactic conversions and the "
      "vector helpers apply these rotations, in place if asked, right ascensions staying within half a turn of where they were. full_ra_dec_to_alt_az() and full_alt_az_to_ra_dec() describe the same sky for every place on Earth, the poles included; "
      "calc_dist_and_posn_ang() gives separation and angle to full precision from zero to antipodes, and reverse_dist_and_posn_ang() goes there.",
      ["input", "history"], "every year, direction, place and time, and every order of requests",
      "tests print a few positions", ["precess.cpp", "nutation.cpp", "obliquit.cpp", "alt_az.cpp", "dist_pa.cpp", "miscell.cpp"],
      ["setup_precession, setup_ecliptic_precession, setup_precession_with_nutation_delta", "nutation, mean_obliquity, green_sidereal_time", "full_ra_dec_to_alt_az, full_alt_az_to_ra_dec", "precess_ra_dec, precess_pt", "calc_dist_and_posn_ang, reverse_dist_and_posn_ang"], TV,
      "Numbers are compared with a forty-digit evaluation of the specification (module Dec)."),
    P("C15", "Places: every way of writing one gives the same spot on its body",
      "get_lat_lon_info() and get_xxx_location_info() read latitude, longitude and altitude from text with degrees, minutes and seconds, compass letters before or after, in either order, metres or feet, and refuse what is no place; "
      "get_mpc_code_info() reads every kind of observatory line (parallax constants of any precision, degrees with altitude, rovers, other bodies, spacecraft, satellites-style offsets), with name, code, planet, format and precisions, and refuses the rest; "
      "get_ra_from_string()/get_dec_from_string() read angles and tell how much they used. lat_alt_to_parallax() and point_to_ellipse() are inverse on every figure, the nearest point being the nearest, "
      "planet radii and flattenings are those of the table, and extract_region_data_for_lat_lon() finds the first listed box or circle that holds the place. No text is read beyond its end.",
      ["input"], "every text, line, place, body and region list",
      "tests print a few observatories", ["mpc_code.cpp", "miscell.cpp"],
      ["get_lat_lon_info, get_xxx_location_info, get_mpc_code_info", "lat_alt_to_parallax, point_to_ellipse, planet_radius_in_meters, planet_axis_ratio", "get_ra_from_string, get_dec_from_string, quick_strtod", "extract_region_data_for_lat_lon"], TV,
      "Numbers are compared with a forty-digit evaluation of the specification (module Dec). Two-field right ascensions (hours or degrees) are left open."),
    P("C16", "Planet orientations: what cospar.txt says, after any history of use",
      "calc_planet_orientation(), planet_radii() and planet_rotation_rate() answer from the orientation file as it is written: sizes, pole, the prime meridian of the requested rotation system (or the general one), linear, quadratic and periodic terms in days or "
      "centuries with their numbered angles, and renumbered bodies; comments, blank lines and spacing do not matter. The orientation is a rigid triad with the pole last, the second axis counted against the rotation, for the Earth that of precession, nutation and Earth "
      "orientation parameters. A body, rotation system or file that is not there gives -1 (a rate of zero), still with a rigid triad. Whatever was asked, loaded, released or failed to load before, the answer is that of the file now in use. "
      "The supplied cospar.txt can be read in full and holds the published poles and rotation rates.",
      ["input", "history"], "every file of the form of cospar.txt, every body, system, time, and order of loading and asking",
      "one test prints a matrix for one planet", ["cospar.cpp", "cospar.txt"],
      ["get_cospar_data_from_text_file, load_cospar_file", "calc_planet_orientation, planet_radii, planet_rotation_rate"], TV,
      "Numbers are compared with a forty-digit evaluation of the specification (module Dec). Files of another form left open."),
    P("C17", "Form data: every field is read back as it was sent, from any bytes",
      "The routines that web programs use to read a form (get_urlencoded_form_data, get_multipart_form_data, initialize_cgi_reading, get_cgi_data, free_cgi_data) give, field after field in order, exactly the names, values and file names that were sent: "
      "'+' and %XX (hexadecimal in either case, any byte) decoded, values with line ends and part boundaries handled as multipart says, other header lines skipped. A broken escape ends the data with an error, a value too long for the buffer is cut and reported, "
      "a missing or unknown content type or length is refused. Nothing is ever written past the buffers, whatever the input, and freeing twice or reading after the end is harmless.",
      ["input", "history"], "every query string, request body, buffer size and sequence of reads",
      "no test reads a form", ["cgi_func.cpp"],
      ["get_urlencoded_form_data, get_multipart_form_data", "initialize_cgi_reading, get_cgi_data, free_cgi_data"], TV,
      "A multipart value within a line of filling the buffer, and a part naming a file but no field, are left open."),
    P("C18", "Bounded text: copies, appends and replacements",
      "strlcpy and strlcat copy or append as much as the buffer's size allows, always ending the text (a size of 0, or a buffer with no text end, is left alone), touch no byte beyond, and return the length wanted; snprintf_append_trunc does likewise with formatted text; the _err and _append versions "
      "do the same when it fits and end the program rather than hand on cut text; text_search_and_replace replaces every occurrence from the left, without looking again at what it put in, and returns how many there were.",
      ["input"], "every buffer size, content and text",
      "no test calls these with text that does not fit", ["snprintf.cpp", "mpc_fmt2.cpp", "stringex.h"],
      ["strlcpy, strlcat, strlcpy_err, strlcat_err, snprintf_err, snprintf_append", "text_search_and_replace"], TV,
      "The versions that end the program are watched from a parent process."),
    P("C19", "Orbits as text: every format says the same orbit",
      "A SOF line is read by its header: whatever the order, width and choice of columns, each element is the one its column holds, to the rounding of a double, and a line lacking a needed column, or too short for it, is refused; MPCORB and ASTORB lines give the elements of their columns, with perihelion time, "
      "distance and motion agreeing with them, and the day of the epoch; mpc2sof turns every MPCORB orbit and every comet of ELEMENTS.COMET, and nothing else, into a SOF line saying the same; elements_in_mpc_format writes the epoch, perihelion time, angles, sizes, motion, period and magnitudes it was given, "
      "rounded to the digits it shows, with the right unit and on a real date; none reads or writes beyond its text.",
      ["input"], "every orbit, line, header and choice of options",
      "the tests read a few well-formed lines; the columns, roundings, units and carries that go wrong need unusual ones", ["sof.cpp", "mpcorb.cpp", "showelem.cpp", "mpc2sof.cpp"],
      ["extract_sof_data, extract_sof_data_ex", "extract_mpcorb_dat, extract_astorb_dat", "elements_in_mpc_format", "mpc2sof: extract_mpcorb_data, extract_comet_data"], TV,
      "Malformed dates and, in mpc2sof, distances of 100 AU and more are left open."),
    P("C20", "Names by rule: constellations, variable stars, star catalogues",
      "constell_from_ra_dec gives, for every place (equinox B1875; any number of turns), the constellation the boundaries of 1930 put it in, its index and its abbreviation agreeing, a place on a boundary belonging to one side of it; make_var_desig and decipher_var_desig are inverse over all variable stars in the order "
      "R..Z, RR..ZZ, AA..QZ without J, V335 on, in either case and with the constellation following, and give -1 for what is no designation; byte_code_to_net_name and net_name_to_byte_code are inverse over the star catalogues, the latter also for the usual spellings, giving ? for what is none.",
      ["input"], "every place, number, designation and catalogue name",
      "the boundaries have some 650 corners and 324 sides, of which the tests sample none", ["conbound.c", "miscell.cpp", "mpc_fmt.cpp"],
      ["constell_from_ra_dec, constell_names", "make_var_desig, decipher_var_desig", "byte_code_to_net_name, net_name_to_byte_code"], TV,
      "The table of boundaries in the specification is checked against the published areas of the 88 constellations."),
    P("C21", "Series places: planets and Moon are the sums their data files give",
      "calc_big_vsop_loc, calc_vsop_loc, the Moon's fundamentals, longitude, distance and latitude, calc_pluto_loc, compute_elp_xyz, and load_ps1996_series with get_ps1996_position give the sum of the series the data file passed holds for the body and time asked (to rounding; longitudes in [0, 2 pi) where the function promises it), "
      "whatever was asked before and of whichever file, with just the terms below the precision asked for left out; compute_planet gives that place in its five frames for bodies 0 to 10, Pluto and the Moon among them; velocities are the derivatives of positions; a file cut short or a time it does not cover is reported and never summed; no call leaves a file open or memory behind.",
      ["input", "history"], "every data file in its format, body, time, precision, and sequence of questions",
      "there are no data files in the repository, so the tests run none of this", ["big_vsop.cpp", "vsopson.cpp", "lunar2.cpp", "pluto.cpp", "getplane.cpp", "elp82dat.cpp", "de_plan.cpp"],
      ["calc_big_vsop_loc", "calc_vsop_loc", "lunar_fundamentals, lunar_lon_and_dist, lunar_lat", "calc_pluto_loc", "compute_planet", "compute_elp_xyz, add_in_series", "load_ps1996_series, get_ps1996_position"], TV,
      "Data files are made up by the driver in the formats of the real ones."),
    P("C22", "Orbit distances: no two points are closer than the MOID, and its data fit it",
      "find_moid_full gives the least distance between the points of an ellipse and those of another orbit, elliptic, parabolic or hyperbolic: none of its points is closer, and the true anomaly, date and encounter speed it reports are those of the point of the first orbit where the second comes that close; asking for the data changes nothing; "
      "point_to_ellipse gives a perpendicular's foot on the ellipse, the nearest, with its signed distance to rounding, for points in and out of it and any flattening; setup_planet_elem gives the published mean orbits, and refuses other numbers.",
      ["input"], "every pair of orbits, point and ellipse, planet and date",
      "a minimum missed, or found with another's data, needs particular pairs of orbits; the tests try none", ["moid.cpp", "mpc_code.cpp"],
      ["find_moid_full", "point_to_ellipse", "setup_planet_elem"], TV,
      "The search's steps of five degrees, documented in the code, are part of the specification."),
    P("C23", "Satellites: places by their published theories, whichever are asked for",
      "calc_jsat_loc, calc_ssat_loc, gust86_posn, calc_triton_loc, htc20 and evaluate_rock give, for every date and satellite, the place (and velocity, where offered, the derivative of the place) of the theory they name, in the frame and units documented: every term counted once, with its sign, argument and unit; "
      "asking for a set of Jupiter's moons gives each the place it has alone, and zeros for the others, the set echoed; unknown satellites are refused with nothing, or an error, given; no call depends on those before it or writes more than it promises.",
      ["input"], "every satellite, date, and set of satellites asked for",
      "the tests compute few satellites at few dates, to few digits: small terms, rare sets and dates near zeros of an angle go unseen", ["jsats.cpp", "ssats.cpp", "gust86.cpp", "triton.cpp", "htc20b.cpp", "rocks.cpp"],
      ["calc_jsat_loc", "calc_ssat_loc, set_ssat_elems", "gust86_posn", "calc_triton_loc", "htc20", "evaluate_rock"], TV,
      "The theories' coefficients are part of the specification; laws (d'Alembert's rule, Kepler's third law, apsidal and resonance ratios, derivatives) check them in TLC."),
    P("C24", "Refraction: the published laws, zero overhead, and reversible",
      "refraction gives Bennett's refraction for every height seen, saasta_refraction Saastamoinen's for any weather, integrated_refraction the integral along the ray through the atmosphere of the Explanatory Supplement (3.281) to a few parts in ten thousand for every latitude, height of observer below the tropopause, wavelength, humidity, temperature and pressure; none is other than a number, at the zenith nor without air; "
      "each reverse_ function gives, for an object's true height, the refraction which the forward function gives at the height where the object is seen (to 0.01\" for reverse_refraction, 0.1\" for the integral; for Saastamoinen's as close as one correction of Saemundsson's formula comes).",
      ["input"], "every height, weather, wavelength and observer",
      "test_ref prints a table for one weather; nothing looks at other weathers, wavelengths, the zenith, or whether the reverse functions undo the others", ["refract.cpp", "refract4.cpp"],
      ["refraction, reverse_refraction", "saasta_refraction, reverse_saasta_refraction", "integrated_refraction, reverse_integrated_refraction"], TV,
      "The specification integrates by Simpson's rule in forty digits; laws (pressure, temperature, wavelength, agreement of the laws where each is good, tabulated values) are checked in TLC."),
    P("C25", "Photometry: sky brightness, extinction, limiting magnitudes, colour relations",
      "set_brightness_params, compute_sky_brightness, compute_extinction and compute_limiting_mag give, for every site, season, weather, Sun, Moon and direction above the horizon, what Schaefer's model gives in the bands the mask asks for, and leave other bands alone, whatever was asked before; "
      "the functions of colors.cpp and colors2.cpp give the colour their polynomial, broken line or table (Caldwell et al., Hipparcos, Bessell) gives within its limits and say there is none (99 or more, or -1) outside them; b_minus_v_to_v_minus_i and v_minus_r_to_v_minus_i are the inverses, to 1e-6, of v_minus_i_to_b_minus_v and v_minus_i_to_v_minus_r for every colour those can give; the broken lines have no jumps.",
      ["input", "history"], "every scene, mask, sequence of calls on one structure, and colour",
      "no test runs any of this code", ["vislimit.cpp", "colors.cpp", "colors2.cpp"],
      ["set_brightness_params", "compute_sky_brightness", "compute_extinction, compute_limiting_mag", "compute_color_polynomial, compute_inverse_color_polynomial", "tycho_to_johnson_colors"], TV,
      "Model: a night in which the Sun goes down, the Moon waxes and the gaze lowers, and stars from blue to red."),
]
NOT_APPLICABLE = []
