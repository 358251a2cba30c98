#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))


prop("C01", "Near-earth predictions follow the SGP4 theory",
     "For every orbit whose period is below 225 minutes, the position and velocity predicted at any time before or after epoch equal those of the published near-earth SGP4 equations (secular gravity and drag, low/high perigee drag variants, low/high eccentricity variants, long- and short-period corrections, Kepler's equation) to within floating-point rounding. This holds for every gravity model supplied by the caller, every drag term including zero and negative ones, and every value of the angles, including unnormalised ones.",
     ["inputs", "configurations"],
     "All near-earth Brouwer orbits (eccentricity, inclination incl. 0 and pi, any angles), drag terms, gravity models (WGS72, WGS84, custom) and propagation times, including the published branch thresholds (perigee 98/156/220 km, eccentricity 1e-4, inclination near pi).",
     "The repository compares a few dozen catalogue satellites in AFSPC mode with WGS72 only; most branch combinations, non-standard gravity models, negative times, negative drag and threshold values are never executed.",
     ["src/lib.rs", "src/near_earth.rs", "src/model.rs"],
     [("secular gravity and drag constants", "src/lib.rs Constants::new"),
      ("near-earth constants (perigee and eccentricity variants)", "src/near_earth.rs constants"),
      ("near-earth secular propagation", "src/near_earth.rs near_earth_orbital_elements"),
      ("long/short period corrections and Kepler solution", "src/lib.rs Constants::propagate_from_state")],
     observe=["Constants::propagate", "Constants::propagate_afspc_compatibility_mode"])

prop("C02", "Non-resonant deep-space predictions follow the SDP4 theory",
     "For every orbit whose period is at least 225 minutes and that is in neither the one-day nor the half-day resonance band, the predicted position and velocity equal those of the published deep-space SGP4 equations, including the Sun's and Moon's secular and periodic effects for the element epoch, to within floating-point rounding. This covers orbits of any inclination, with the low-inclination (Lyddane) form used when the perturbed inclination is below 0.2 rad and the node rate left unperturbed within 3 degrees of the equatorial plane.",
     ["inputs", "configurations"],
     "All deep-space non-resonant orbits, epochs over several centuries, gravity models, drag terms, compatibility modes and propagation times, including the inclination thresholds (3 deg, 177 deg, 0.2 rad perturbed) and the period and resonance-band thresholds.",
     "The test vectors contain only a handful of deep-space satellites, in one mode and one gravity model, over at most a few weeks.",
     ["src/deep_space.rs", "src/third_body.rs", "src/lib.rs"],
     [("solar and lunar constants", "src/deep_space.rs constants"),
      ("third-body secular rates and periodic coefficients", "src/third_body.rs perturbations_and_dots"),
      ("periodic effects at time t", "src/third_body.rs long_period_periodic_effects"),
      ("Lyddane form and deep-space elements", "src/deep_space.rs deep_space_orbital_elements")],
     observe=["Constants::propagate", "Constants::propagate_afspc_compatibility_mode"])

prop("C03", "Resonant orbit predictions follow the numerical integration theory",
     "For every geosynchronous orbit (one-day band) and every eccentric half-day (Molniya) orbit, the predicted position and velocity equal those of the published resonance equations integrated from epoch with 720-minute steps in the direction of the requested time, to within floating-point rounding. This holds for times before and after epoch, for times that fall exactly on or next to an integration step, and over spans of decades.",
     ["inputs", "histories"],
     "All resonant orbits (every eccentricity segment of the half-day geopotential polynomials, all inclinations and longitudes, all epochs), and all propagation times from 0 to decades forwards and backwards.",
     "A few resonant satellites appear in the test vectors for short spans; eccentricity segments, backward integration and exact step boundaries are mostly unvisited.",
     ["src/deep_space.rs"],
     [("resonance band selection and coefficients", "src/deep_space.rs constants"),
      ("720-minute integrator", "src/deep_space.rs ResonanceState::integrate")],
     state=[("integrator state", "time, mean motion and longitude at the last completed step", "src/deep_space.rs ResonanceState")],
     observe=["Constants::propagate"])

prop("C04", "Divergence is reported, with the right error, exactly when it occurs",
     "A propagation fails exactly when the theory says the elements have diverged: the mean eccentricity leaves [-0.001, 1), or the eccentricity after third-body perturbations leaves [0, 1], or the semi-latus rectum is no longer positive (negative, zero or undefined), in that order of precedence, and otherwise succeeds with finite coordinates. The error names which of these happened and carries the requested time and the offending eccentricity.",
     ["inputs"],
     "All orbits within the ranges a TLE can express (any drag term) and all finite propagation times up to centuries, in particular just before and just after the divergence time.",
     "The test vectors contain a few failing propagations and do not check the reported values or the exact transition.",
     ["src/gp.rs", "src/lib.rs", "src/near_earth.rs", "src/deep_space.rs"],
     [("mean eccentricity check", "src/near_earth.rs near_earth_orbital_elements, src/deep_space.rs deep_space_orbital_elements"),
      ("perturbed eccentricity check", "src/deep_space.rs deep_space_orbital_elements"),
      ("semi-latus rectum check", "src/lib.rs Constants::propagate_from_state")],
     observe=["Constants::propagate"])

prop("C05", "Initialisation validates elements and follows the documented recipe",
     "Converting catalogue (Kozai) elements to Brouwer elements changes only the mean motion, by the published formula for the given gravity model, and refuses a non-positive catalogue or recovered mean motion; building a propagator refuses an epoch eccentricity outside [0, 1) and reports that eccentricity. The one-call initialisers for TLE/OMM elements behave exactly like the documented manual recipe: WGS84, IAU sidereal time and the accurate epoch in the standard one; WGS72, AFSPC sidereal time and the AFSPC epoch in the compatibility one. A caller-supplied gravity model or sidereal-time function is the one that is used.",
     ["inputs", "configurations"],
     "All finite element values including out-of-range ones, all gravity models and all sidereal-time functions.",
     "Tests only initialise from valid catalogue elements with the AFSPC recipe.",
     ["src/lib.rs", "src/model.rs"],
     [("Kozai to Brouwer conversion", "src/lib.rs Orbit::from_kozai_elements"),
      ("epoch eccentricity validation", "src/lib.rs Constants::new"),
      ("recipes", "src/lib.rs Constants::from_elements, from_elements_afspc_compatibility_mode")],
     observe=["Orbit::from_kozai_elements", "Constants::new", "Constants::from_elements", "Constants::from_elements_afspc_compatibility_mode"])

prop("C06", "Reusing the integrator state never changes a prediction",
     "For every sequence of propagation times of one sign whose magnitudes never decrease, propagating with one reused integrator state gives at each time the same outcome as a fresh stateless propagation, and the state's reported time is the multiple of 720 minutes, on the same side of epoch, that is at most the requested time and less than one step away from it. A reused state that is asked for a time it cannot serve is refused with a panic rather than answered wrongly. Orbits that need no integrator yield no state. A resonant orbit propagated without a state, or an orbit that needs none propagated with one, is refused too and the state is left as it was.",
     ["histories", "inputs"],
     "All resonant orbits and all histories of calls sharing one state: monotone forward or backward histories with arbitrary gaps, repeated times, exact step boundaries, copies of the state, failing propagations in between, illegal non-monotone requests, and states that are missing or belong to another orbit.",
     "Only short increasing sequences on a few satellites are exercised by the test vectors; step-boundary, repeated, backward, copied and illegal reuse are not.",
     ["src/deep_space.rs", "src/lib.rs"],
     [("state creation", "src/lib.rs Constants::initial_state"),
      ("incremental integration and monotonicity guard", "src/deep_space.rs ResonanceState::integrate")],
     state=[("integrator state", "time, mean motion and longitude at the last completed step", "src/deep_space.rs ResonanceState")],
     observe=["Constants::propagate_from_state", "ResonanceState::t"])

prop("C07", "Compatibility mode changes only low-inclination deep-space predictions",
     "The AFSPC compatibility switch of a propagation leaves the result unchanged for every near-earth orbit and for every deep-space orbit whose perturbed inclination at the requested time is at least 0.2 rad. For deep-space orbits below 0.2 rad each mode yields its own documented form, which differ only in how the node is reduced to one turn (non-negative in compatibility mode, sign-preserving otherwise).",
     ["inputs", "configurations"],
     "All orbits, gravity models, epochs and times, under both modes of propagation applied to the same initialised propagator.",
     "The test vectors only use compatibility mode; the standard mode and the relation between the two are never compared.",
     ["src/deep_space.rs", "src/lib.rs"],
     [("mode-dependent node reduction", "src/deep_space.rs deep_space_orbital_elements"),
      ("mode selection", "src/lib.rs Constants::propagate, propagate_afspc_compatibility_mode, propagate_from_state")],
     observe=["Constants::propagate", "Constants::propagate_afspc_compatibility_mode", "Constants::propagate_from_state"])

prop("C08", "A valid TLE is decoded to exactly the values it encodes",
     "For every well-formed two-line element set, decoding succeeds and every field equals the value written in its columns: catalogue number, classification, international designator (absent when blank, launch year 57-99 in the 1900s and 00-56 in the 2000s), epoch instant (same century rule, to a few nanoseconds), both mean-motion derivatives, drag term, ephemeris type, element set number, angles, eccentricity, mean motion and revolution number. The object name is the one passed by the caller.",
     ["inputs"],
     "All well-formed TLEs: every field over its full printable range, leading spaces or zeros, explicit or implicit signs, positive and negative exponents, blank designators, leap-year day 366, both century pivots.",
     "Tests decode five TLEs.",
     ["src/tle.rs"],
     [("column decoding", "src/tle.rs Elements::from_lines"),
      ("assumed decimal point representation", "src/tle.rs parse_decimal_point_assumed")],
     observe=["Elements::from_tle"])

prop("C09", "A corrupted TLE is rejected and the error points at the damage",
     "A pair of lines is rejected if either line is not 69 bytes long, has the wrong line number or a non-blank separator column, fails its modulo-10 checksum (digits count their value, minus signs count one), disagrees on the catalogue number, has an unknown classification, or has a field that does not hold a value of its kind or a date that does not exist. The error identifies the kind of defect, the line and the character range of the offending field; in particular replacing any one digit of a valid TLE by another digit is always rejected.",
     ["inputs", "fault_sequences"],
     "All valid TLEs combined with every single defect of the listed kinds at every position, and all single-digit substitutions.",
     "No test feeds the parser a malformed TLE.",
     ["src/tle.rs"],
     [("line validation and checksum", "src/tle.rs Elements::from_lines"),
      ("error value and message", "src/tle.rs Error, ErrorWhat, ErrorLine")],
     observe=["Elements::from_tle", "TleError Display and Debug"])

prop("C10", "Parsing arbitrary bytes never panics or touches invalid memory",
     "Whatever byte sequences or text are given to the TLE, TLE-list and OMM parsers, they return a value or an error: they never panic, abort, overflow, loop forever or perform an invalid memory access. Any text in a returned value is valid text, and a returned value can be used to initialise and run a propagator without panicking.",
     ["inputs", "configurations"],
     "All byte strings, including non-UTF-8 bytes, control characters, wrong lengths and mutations of valid TLEs and OMMs; builds with overflow checks, with the address sanitizer and under an undefined-behaviour interpreter.",
     "No test feeds the parsers hostile input, and the parser contains unchecked string conversions.",
     ["src/tle.rs"],
     [("byte-level parsing with unchecked conversions", "src/tle.rs FromU8"),
      ("fixed-size buffer handling", "src/tle.rs parse_decimal_point_assumed"),
      ("checksum arithmetic", "src/tle.rs Elements::from_lines")],
     observe=["Elements::from_tle", "parse_2les", "parse_3les", "serde_json::from_slice::<Elements>"])

prop("C11", "Parsing a TLE list equals parsing each group on its own",
     "Parsing a multi-line text of consecutive two-line (or name plus two-line) groups yields exactly one entry per group, in order, each equal to decoding that group alone, with the name line kept verbatim for three-line groups and no name for two-line groups. LF and CRLF line ends and a missing final line end make no difference. If any group is invalid the whole call fails with that first invalid group's error.",
     ["inputs", "histories"],
     "All list lengths from 0 to thousands, all line-end styles, arbitrary name lines, and an invalid group at any position.",
     "Tests only check that two-entry lists have two entries.",
     ["src/tle.rs"],
     [("two-line grouping", "src/tle.rs parse_2les"), ("three-line grouping", "src/tle.rs parse_3les")],
     observe=["parse_2les", "parse_3les"])

prop("C12", "An OMM JSON object is decoded to exactly its values",
     "For every OMM JSON object with the standard keys, each numeric field given either as a JSON number or as a decimal string decodes to that number, the epoch to that instant, and name and identifier to their text or to none when null or absent; extra keys, key order and white space make no difference. An object that lacks a required key, or whose value is of the wrong kind or does not fit the field, is rejected instead of being altered. An OMM and a TLE that carry the same data decode to the same elements.",
     ["inputs"],
     "All OMM objects: every field independently as number or string, over its full range, any key order, extra keys, lists of objects, and every single missing, mistyped or out-of-range field.",
     "Three fixed JSON documents are decoded by the tests; no rejection is tested.",
     ["src/tle.rs"],
     [("number-or-string decoding", "src/tle.rs u64_or_string, u8_or_string, f64_or_string"),
      ("OMM key mapping", "src/tle.rs Elements serde attributes")],
     observe=["serde_json::from_str::<Elements>", "serde_json::from_value"])

prop("C13", "Serialising and deserialising a value preserves it",
     "Elements, orbits, gravity models, predictions and initialised propagators serialised and deserialised again are unchanged: every field is equal and a restored propagator gives the same outcome as the original at every time and in both modes. Serialised elements use the standard OMM keys and decode as an OMM.",
     ["inputs", "histories"],
     "All values of the serialisable types, including every kind of propagator (each near-earth variant, deep-space, both resonances), absent names, extreme numbers, and repeated round trips.",
     "No test serialises anything.",
     ["src/tle.rs", "src/propagator.rs", "src/third_body.rs", "src/model.rs"],
     [("serde attributes of elements", "src/tle.rs Elements"),
      ("serde derives of the propagator", "src/propagator.rs Constants, Method, Resonant, HighAltitude")],
     observe=["serde_json::to_value/from_value", "serde_json::to_string/from_str"])

prop("C14", "Epochs and sidereal times follow the documented expressions",
     "For every instant from March 1900 to February 2100, both epoch functions return the elapsed time since noon UTC on 1 January 2000 in Julian years of 365.25 days, the accurate one to within rounding of a double and the AFSPC one to within rounding of a Julian date, and the elements' epoch is that of their date. The IAU and AFSPC sidereal-time functions return the documented polynomial reduced to one non-negative turn, for every epoch before or after 2000.",
     ["inputs"],
     "All calendar instants to the nanosecond in the validity range (every day of every year, leap days, first and last nanosecond of a day), and all epochs within several centuries.",
     "Tests compare five epochs; no sidereal time is tested.",
     ["src/tle.rs", "src/model.rs"],
     [("Julian years", "src/tle.rs julian_years_since_j2000, julian_years_since_j2000_afspc_compatibility_mode"),
      ("sidereal time", "src/model.rs iau_epoch_to_sidereal_time, afspc_epoch_to_sidereal_time")],
     observe=["julian_years_since_j2000", "Elements::epoch", "iau_epoch_to_sidereal_time", "afspc_epoch_to_sidereal_time"])

prop("C15", "Dates and minutes since epoch convert into each other consistently",
     "Converting a date to minutes since the elements' epoch gives the signed elapsed time, and converting minutes to a date gives the epoch plus that time rounded to the nearest nanosecond, for dates before and after epoch; each conversion undoes the other to within the rounding of a double. A span that does not fit in 64-bit nanoseconds, a date outside the calendar, or a number of minutes that is not finite is reported as an error, never as a wrong date.",
     ["inputs"],
     "All epochs and dates of the calendar, all minute counts including negative, sub-nanosecond, huge, infinite and not-a-number.",
     "Neither conversion is tested.",
     ["src/tle.rs"],
     [("date to minutes", "src/tle.rs Elements::datetime_to_minutes_since_epoch"),
      ("minutes to date", "src/tle.rs Elements::minutes_since_epoch_to_datetime")],
     observe=["Elements::datetime_to_minutes_since_epoch", "Elements::minutes_since_epoch_to_datetime"])

prop("C16", "Initialising and propagating always terminates without panicking",
     "For every value of the elements, drag term, epoch and gravity model - including zero, huge, infinite and not-a-number ones - building a propagator and asking it for a stateless prediction returns a value or an error, without panicking, at every time up to a billion minutes from epoch and at infinite or not-a-number times. No call takes more work than is proportional to the number of 720-minute steps to the requested time.",
     ["inputs"],
     "All floating-point inputs of the initialisers and of both propagation modes, in optimised builds with overflow checks and debug assertions.",
     "Tests only use catalogue elements and times within days of epoch.",
     ["src/lib.rs", "src/deep_space.rs", "src/near_earth.rs", "src/third_body.rs", "src/tle.rs"],
     [("bounded Kepler iteration", "src/lib.rs Constants::propagate_from_state"),
      ("integrator loop", "src/deep_space.rs ResonanceState::integrate"),
      ("epoch arithmetic", "src/tle.rs julian_years_since_j2000_afspc_compatibility_mode")],
     observe=["Constants::new", "Constants::from_elements", "Constants::propagate"])

prop("C17", "Propagation is pure and a propagator is safe to share between threads",
     "A prediction depends only on the propagator and the requested time: repeating calls, reordering them, interleaving different satellites, cloning the propagator or running from any number of threads at once gives bit-identical outcomes, and no call changes the propagator. A propagator can be sent to and shared between threads without data races.",
     ["schedules", "histories", "inputs"],
     "All interleavings of propagations, initialisations and parses of different satellites on any number of threads, and all call orders.",
     "All tests are single-threaded and each propagator is used in increasing time order.",
     ["src/propagator.rs", "src/lib.rs", "src/deep_space.rs"],
     [("immutable propagator, per-call state", "src/lib.rs Constants::propagate"),
      ("propagator type", "src/propagator.rs Constants")],
     observe=["Constants::propagate", "Constants (Debug, serialised form)", "ThreadSanitizer reports"])

prop("C18", "All feature configurations compute the same results",
     "Every supported feature combination (standard library or portable math; with and without allocation and serialisation) builds, decodes and rejects the same TLEs with the same values and errors, initialises and refuses the same elements, and predicts the same positions and velocities up to the rounding of the elementary functions.",
     ["configurations", "inputs"],
     "All supported feature combinations, all TLEs (valid and corrupted), and all orbit classes, modes and times.",
     "The test suite runs with one feature set only.",
     ["Cargo.toml", "src/lib.rs", "src/tle.rs", "src/deep_space.rs", "src/model.rs"],
     [("feature-dependent code", "src/tle.rs, src/model.rs, src/deep_space.rs cfg blocks")],
     observe=["Elements::from_tle", "Constants::propagate", "sidereal-time and epoch functions"])

prop("C19", "No heap use in propagation, and memory bounded by the input in parsing",
     "Building orbits and propagators, propagating in either mode with or without a carried state, and converting dates never allocate heap memory. Parsing TLEs, lists of TLEs, OMM texts and stored propagators needs at most 4096 bytes plus 16 for each byte of the input, keeps only the memory held by the returned value, keeps nothing when the input is refused, and dropping the value releases everything.",
     ["inputs"],
     "All orbit classes, modes and times; all well-formed and malformed TLE, list and OMM texts of any length.",
     "Tests never look at memory, and leaked or excess memory does not change any result.",
     ["src/lib.rs", "src/propagator.rs", "src/deep_space.rs", "src/near_earth.rs", "src/third_body.rs", "src/tle.rs"],
     [("propagation without allocation", "src/lib.rs Constants::propagate_from_state"),
      ("list parsing", "src/tle.rs parse_2les, parse_3les"),
      ("name and designator of a TLE", "src/tle.rs Elements::from_tle")],
     observe=["counting global allocator around each call"])

prop("C20", "The text of an error says what went wrong and with which values",
     "The text of an error states its cause. For a TLE: the kind of defect, the line and both ends of the character range, as the error itself holds them. For a divergence: which quantity left its range, whether before or after the third-body perturbations, the value of an eccentricity, and the requested time. For elements: which mean motion is not positive, or the eccentricity that is out of range. For dates and minutes: the operands of the operation that failed, in its order. Numbers are given such that they read back as the same double. A clone, a boxed error and an error converted to another error type have the same text; formatting an error never panics and passes on the failure of a writer.",
     ["inputs"],
     "All kinds of errors that can be provoked or, where their type allows it, built by the caller, with all values including infinite and not-a-number ones.",
     "Tests only check that errors occur, never what their text says.",
     ["src/gp.rs", "src/lib.rs", "src/tle.rs"],
     [("propagation errors", "src/gp.rs Display for Error"),
      ("initialisation errors", "src/lib.rs Display for KozaiElementsError, OutOfRangeEpochEccentricity, ElementsError"),
      ("TLE and conversion errors", "src/tle.rs Display for Error, DatetimeToMinutesSinceEpochError, MinutesSinceEpochToDatetimeError")],
     observe=["Display, Debug, Clone and Error of each error value"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
