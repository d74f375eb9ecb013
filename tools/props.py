"""Properties of RAMP: writes properties.jsonl and MANIFEST.json (run: python3-vt tools/props.py)"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE, UTILS, CLI, RUN, POST, CONV, CONST = "ramp/core/core.py", "ramp/core/utils.py", "ramp/cli.py", "ramp/ramp_run.py", "ramp/post_process/post_process.py", "ramp/ramp_convert_old_input_files.py", "ramp/core/constants.py"


def m(*xs):
    return [dict(zip(("file", "symbol", "role"), x)) for x in xs]


P = []


def prop(id, title, statement, over, text, why, files, mech, level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level_note=level_note, na=na))


RND = "quantifies over every outcome of the random draws; the tests run a handful of fixed configurations with whatever the generator yields and look at shapes, averages or a few values"

prop("C01", "An appliance consumes only inside its windows of use",
     "In every generated day, an appliance consumes nothing in a minute that lies outside its windows of use, each widened on both sides by at most the declared window variability (random_var_w times the window's length, whole minutes) and clipped to the day. The daily profile always has exactly 1440 values and none is negative.",
     ["inputs", "histories"], "all window limits, all outcomes of the draws, every minute of the day, flat and not flat appliances with one, two or three windows",
     RND, [CORE], [(CORE, "Appliance.windows / calc_rand_window / generate_load_profile", "window bookkeeping, randomised windows, day profile")])
prop("C02", "Load of an appliance in any minute is bounded by number times power",
     "In every minute of every generated day the load of an appliance without duty cycles is either zero, or the 0.001 placeholder of an unused minute inside its window, or an integer count between 1 and `number` times that day's power varied by at most thermal_p_var; a flat appliance loads exactly number times that day's power in its windows. Power is taken from the simulated day.",
     ["inputs", "histories"], "all numbers, powers, thermal variabilities, windows, draws, day indexes and minutes",
     RND, [CORE, UTILS], [(CORE, "Appliance.update_daily_use / generate_load_profile", "writes the load"), (UTILS, "random_variation", "power variability")])
prop("C03", "Daily time of use is what was declared, up to its variability",
     "On a day an appliance is used, the number of minutes it is on equals the randomised daily total whenever the windows have room for it, and never exceeds it. That total lies within func_time times [1 - v, 1 + v] (v: time_fraction_random_variability), is at least func_cycle and at most 99% of the randomised windows (all in whole minutes, rounded).",
     ["inputs", "histories"], "all func_time, variabilities, func_cycle, window limits and draws",
     RND, [CORE], [(CORE, "Appliance.rand_total_time_of_use", "randomised total"), (CORE, "Appliance.generate_load_profile", "fills the day with switch-on events until the total is reached")])
prop("C04", "Switch-on events of a day never overlap; free time accounts for them",
     "Every minute in use belongs to exactly one switch-on event: an event takes only minutes still free and no minute of an event is offered again. After a day is generated, the free spots are disjoint, ordered, and cover exactly the minutes of the randomised windows that carry no event.",
     ["inputs", "histories"], "all windows (overlapping ones included), draws and sequences of events, every minute",
     RND, [CORE], [(CORE, "Appliance.update_available_time_for_switch_on_events", "splits the free spot of an event"), (CORE, "Appliance.rand_switch_on_window", "places the event")])
prop("C05", "Every switch-on event lasts at least func_cycle and fits its free spot",
     "A switch-on event is a contiguous run of minutes inside one free spot; it lasts at least func_cycle (and at least one minute) and no longer than the requested time. No event is returned only if no spot can hold one.",
     ["inputs"], "all sets of up to three free spots, func_cycle values, requested times and draws",
     RND, [CORE], [(CORE, "Appliance.rand_switch_on_window", "picks start and duration")])
prop("C06", "Duty cycles: the cycle declared for the event's time of day is consumed",
     "For an appliance with duty cycles the load of a switch-on event is the sequence of the cycle whose window the event meets (the first of these cycles if it meets the windows of several), with the declared powers and durations varied by at most the declared variability (thermal_p_var for powers, r_c for durations), repeated only if the duty cycle is continuous, times the number of coincident appliances. With a non-continuous duty cycle an event is never longer than one cycle.",
     ["inputs", "histories"], "all cycle powers and durations, cycle windows, events and draws",
     RND, [CORE, UTILS], [(CORE, "Appliance.assign_random_cycles / rand_switch_on_window / update_daily_use", "build, select and write cycles"), (UTILS, "duty_cycle / random_choice / range_within_window", "cycle arrays and selection")])
prop("C07", "Coincident switch-on stays between 1 and number and follows its rule",
     "The number of appliances switched on together is an integer between 1 and number (0 only if number is 0); it equals number for fixed appliances. Inside the peak range it is the drawn normal value (mean and deviation from the documented calibration) rounded up and clamped; outside it follows the uniformly drawn share of the appliances (share times number, rounded up).",
     ["inputs"], "all appliance numbers up to the bound and all draws",
     RND, [CORE, CONST], [(CORE, "Appliance.calc_coincident_switch_on", "coincidence rule"), (UTILS, "within_peak_time_window", "peak membership of an event"), (CONST, "switch_on_parameters", "calibration")])
prop("C08", "An appliance is used exactly on the days its conditions allow",
     "An appliance has a non-zero day only if the day type matches wd_we_type (2 matches all), the user's preference of that day equals pref_index (0 matches all), func_time is not 0 and the occasional-use draw does not exceed occasional_use; if all four hold the appliance is used. Otherwise its profile of the day is all zeros.",
     ["inputs", "configurations"], "all day types, preferences, occasional_use values, func_time values and draws, previous day included",
     RND, [CORE], [(CORE, "Appliance.generate_load_profile", "conditions of use"), (CORE, "User.draw_daily_preference / generate_single_load_profile", "daily preference")])
prop("C09", "The peak time range is centred on the theoretical maximum and stable",
     "The peak time range is a non-empty contiguous range of minutes around a time drawn with its mean between the first and last minute of the theoretical maximum of all users, enlarged on both sides by at least one minute. It depends only on the users' declared data (windows, mean power, number, num_users), not on profiles generated before.",
     ["inputs", "histories"], "all windows, powers, numbers, peak enlargements, draws and earlier generations",
     RND, [CORE], [(CORE, "UseCase.calc_peak_time_range", "peak range"), (CORE, "User.maximum_profile / Appliance.maximum_profile", "theoretical maximum")])
prop("C10", "Totals: every user, every instance, every appliance counted exactly once",
     "The load of a day is the sum over users of the sum over their num_users instances of the sum over their appliances; each of the simulated days appears once, in order, and the flat result is the concatenation of the days. A user with num_users 0 contributes nothing.",
     ["configurations", "histories"], "all small sets of users, instance counts, appliances and days, symbolic powers and draws",
     "the tests compare the totals of one or two example files; " + RND, [CORE], [(CORE, "UseCase.generate_daily_load_profiles", "sums users per day"), (CORE, "User.generate_aggregated_load_profile / generate_single_load_profile", "sums instances and appliances")])
prop("C11", "Parallel processing gives the same totals as sequential processing",
     "With parallel processing, whatever the order in which the workers finish and however tasks are grouped, the profile of each day is the sum of exactly the tasks of that day (every user instance and appliance once), in the same shape and under the same usage conditions as sequential processing. Without anything to simulate it returns zeros.",
     ["schedules", "configurations"], "all completion orders of the worker chunks, small sets of users, days and preferences",
     "the tests compare the sums of one schedule on one machine", [CORE], [(CORE, "UseCase.generate_daily_load_profiles_parallel", "tasks and collection of results"), (CORE, "single_appliance_daily_load_profile", "task body")])
prop("C12", "The simulated calendar is the requested one",
     "The simulated days are consecutive calendar days: from date_start to date_end inclusive if both are given, num_days days from date_start, or ending at date_end, or from today otherwise; a conflicting num_days wins over date_end; days handed to the generation of a use case without any are the simulated ones. The time index has one entry per minute of exactly these days, and forcing reinitialisation follows the current dates.",
     ["configurations", "inputs"], "all start dates, lengths and combinations of given arguments, re-initialisation included",
     "the tests use three fixed dates", [CORE], [(CORE, "UseCase.initialize / date_start / date_end / num_days", "calendar")])
prop("C13", "Saving and loading a use case loses nothing",
     "A use case written to an input file and loaded again has the same users (name, num_users, preference) in the same order, with the same appliances and the same value of every declared parameter, power series included. In particular the loaded appliances compare equal to the originals.",
     ["inputs"], "all parameter values of the appliances, combinations of windows, cycles and constant or varying power",
     "the tests round-trip a few appliances with default or hand-picked values", [CORE, UTILS], [(CORE, "UseCase.save / load, User.save, Appliance.save", "writing and reading"), (UTILS, "read_input_file", "reading the input table")])
prop("C14", "Power series in input files are read faithfully or refused",
     "A power given as a number, a JSON array of 366 values, or a range of 366 rows in one or two columns is read as exactly those values (the second column for two columns). Any other length or width, or a text that is not such an array or range, is refused with a ValueError.",
     ["inputs"], "all lengths, widths and values of the series",
     "the tests read two example files", [UTILS, CORE], [(UTILS, "read_input_file", "parsing"), (CORE, "Appliance.__init__", "conversion of the power")])
prop("C15", "Appliances are equal exactly when all declared parameters are equal",
     "Two appliances compare equal if and only if all their declared parameters (windows, cycles, power included) have the same values; the comparison never fails. An appliance equal to one the user already owns is not added twice, and different ones are never dropped.",
     ["inputs"], "all single and joint differences of the parameters, power series of different lengths",
     "the tests compare a handful of fixed pairs", [CORE], [(CORE, "Appliance.__eq__", "equality"), (CORE, "User._add_appliance_instance", "uniqueness")])
prop("C16", "Inconsistent windows and parameters are refused",
     "Declaring fewer windows than num_windows, or windows whose total time is shorter than func_time, raises InvalidWindow; any other declaration of windows is accepted and stored unchanged, and the whole day is used when no window is given. Adding something that is not a user or an appliance is refused, and so is a power that is neither a number, a series nor a text, or a negative peak enlargement.",
     ["inputs", "configurations"], "all window limits, func_time and num_windows",
     "the tests try one or two bad windows", [CORE], [(CORE, "Appliance.windows", "validation")])
prop("C17", "A random seed makes the result reproducible",
     "Building the same use case with the same random_seed (0 included) and generating the same days gives the same profiles, whatever the state of the random generator before, sequentially and in parallel with any schedule; a None seed leaves the generator alone. Every random decision is taken from the seeded generator.",
     ["histories", "schedules"], "all states of the random generator before construction, all seeds, all completion orders",
     "the tests check one seed sequentially", [CORE], [(CORE, "UseCase.__init__", "seeding"), (CORE, "generate_daily_load_profiles_parallel / single_appliance_daily_load_profile", "seeds of the tasks")])
prop("C18", "The command line simulates what its options say",
     "The command line runs one simulation per input file, each with its own output and number of days (single values are shared), for the days from --start-date to --end-date (missing one completed within the same calendar year), or for the whole years of -y, sequentially unless -p is given. Inconsistent option counts or -y combined with dates are refused.",
     ["configurations", "inputs"], "all combinations of options, numbers of files, outputs and days, symbolic dates",
     "the tests parse two command lines", [CLI, RUN], [(CLI, "main", "options to runs"), (RUN, "run_usecase", "one run")])
prop("C19", "Yearly simulation with monthly files covers the year once",
     "With -y and a folder of twelve files, month i is simulated with the i-th file (numeric order) over exactly its calendar days, and the written minute series covers every minute of the year once, in order; the hourly file holds mean, max and min of each hour. Another number of files is refused.",
     ["inputs", "configurations"], "all years (leap years included), profile values and number of files",
     "no test runs it", [CLI], [(CLI, "main", "yearly profile")])
prop("C20", "Post-processed results are faithful to the simulated profiles",
     "Formatting the daily profiles yields their minute-wise average, the same profiles in kW, and their concatenation in order; the exported csv holds that series, at the requested path or a default path derived from the input file or case number. Nothing is written if no path can be derived.",
     ["inputs"], "all profile values, numbers of days and path arguments",
     "no test looks at the values", [POST], [(POST, "Profile_formatting / export_series / old_post_process", "formatting and export")])
prop("C21", "Plot objects keep the data they are given and report right figures",
     "A plot object never loses, changes or reorders profile data: selecting (by name, loc, iloc, head), copying, drawing, resampling and statistics leave the original as it was, and the selection holds exactly the selected values. Resampling gives one value per interval, the chosen aggregate of its values divided by the conversion (in place only if asked); mean and sum are those of the cases at each time step; peak holds exactly the steps at which a case reaches its maximum; error is the deviation from the validated data in percent (0 where both are 0, never finite where only the validated value is 0); the load duration curve holds all values in descending order; line, area and shadow plots are handed exactly the chosen cases. Columns are only added on identical time steps, everything else is refused with a ValueError. With cases, a use case gives one column per case, each a generation of its own; written files give the same data back.",
     ["inputs"], "all values in frames up to the bound, all listed selections and rules", "the tests do not use plot objects", [POST, CORE], [(POST, "Plot", "all methods"), (CORE, "UseCase.generate_daily_load_profiles", "cases")])
prop("C22", "Every documented configuration generates a day",
     "For parameter values inside their documented ranges, generating a day always terminates and returns a profile; the only error is the documented ValueError for a func_cycle that does not fit the randomised windows. This includes zero values, windows at the limits of the day and full variability.",
     ["inputs", "configurations"], "all documented parameter values in the bounds, all draws",
     RND, [CORE, UTILS], [(CORE, "Appliance.generate_load_profile and everything below it", "daily generation")])
prop("C23", "A power series too short for the simulated days is refused",
     "If the power series of any appliance has fewer values than the simulated days, initialisation raises ValueError; a constant power of any value is extended with the same value. Appliances and users added after the use case was created are checked too, and day d always uses the d-th value.",
     ["inputs", "histories"], "all series lengths, numbers of days, orders of construction",
     "the tests check one length", [CORE], [(CORE, "Appliance.check_power_values / UseCase.initialize", "validation and extension")])
prop("C24", "Converting an old input file preserves users and appliances",
     "Converting a legacy python input file to xlsx gives a file with every user of User_list, in order, with its appliances and every value declared in the program, named after their variables (or keeping the declared names if asked). It works wherever the file is, writes to the requested folder with the requested suffix (by default next to the program), and may be repeated; the program keeps its statements.",
     ["programs", "inputs"], "all declared values, styles of declaration and import, places of the file and combinations of options of the bounded family of programs",
     "the tests convert the three examples and compare users with an equality that is always true", [CONV, CORE], [(CONV, "convert_old_user_input_file / cli", "conversion"), (CORE, "UseCase.save / load", "writing and reading")])
prop("C25", "All routes to create an appliance are equivalent",
     "Adding an appliance with keyword arguments, with positional arguments, through the legacy call, or as an object with windows and cycles declared afterwards gives the same appliance with every value as declared. The user owns it exactly once.",
     ["inputs", "configurations"], "all parameter values, splits between positional and keyword arguments and creation routes",
     "the tests compare two routes for fixed values", [CORE, CONST], [(CORE, "User.add_appliance / User.Appliance / Appliance.windows / specific_cycle*", "creation")])
prop("C26", "Random variation helpers stay within their declared bounds",
     "A randomly varied value lies between (1 - var) and (1 + var) times its norm and takes the drawn value; a duty cycle is the first power for its varied duration then the second for its own, and a randomly chosen cycle is one of the two orders. Without variability nothing changes.",
     ["inputs"], "all variabilities, norms, powers, durations, draws",
     RND, [UTILS], [(UTILS, "random_variation / duty_cycle / random_choice", "helpers")])
prop("C27", "Day types follow the calendar",
     "Saturdays and Sundays are weekend days and all others week days, for dates given as text or objects; the pattern of a year has one value per calendar day of that year (365 without a year, starting on a Monday). The simulation uses the type of the simulated day.",
     ["inputs"], "all dates and years in the bounds",
     "the tests check one year", [UTILS, CORE], [(UTILS, "get_day_type / yearly_pattern", "day types"), (CORE, "UseCase.generate_daily_load_profiles", "passes the day type on")])

prop("C28", "Each generated day is independent of what was generated before",
     "From the same state of the random generator, a day of an appliance, user or use case is the same whether or not other days, appliances, users or use cases were generated before, and a generation never changes a profile returned earlier. A day on which an appliance is not used leaves nothing behind.",
     ["inputs", "histories", "schedules"], "all outcomes of the draws, histories of up to two generations",
     RND, [CORE], [(CORE, "Appliance.generate_load_profile / assign_random_cycles / rand_switch_on_window", "working state kept on the appliance"), (CORE, "User.generate_*_load_profile / UseCase.generate_daily_load_profiles", "accumulation")])
prop("C29", "Simulating does not change what was declared",
     "Initialising a use case, computing its peak range and generating profiles (alone, aggregated, in sequence or in parallel) leave every declared parameter of appliances, users and use cases as declared, except that a constant power is extended with the same value; lists and arrays handed over by the caller are not written to, appliances declared with the same list stay independent, and appliances declared later start from the documented defaults.",
     ["inputs", "histories"], "all declared values and outcomes of draws in the bounds",
     "the tests compare a few attributes before simulation only", [CORE, CONST], [(CORE, "Appliance / User / UseCase", "attributes read by the generation"), (CONST, "defaults", "shared default values")])
prop("C30", "Users can be simulated on their own",
     "A profile of a single user, or of all users of a kind, can be generated without a use case or before the use case is initialised: the peak range is then the one of the user's use case (a default one is created if there is none), it is drawn once and used for all profiles; a given peak range is used as it is and changes nothing. The aggregated profile is the sum of separately randomised single ones, each the sum of the appliances on the requested day.",
     ["inputs", "configurations", "histories"], "all windows, powers, days and draws in the bounds",
     "the tests generate one such profile for fixed values", [CORE], [(CORE, "User.generate_single_load_profile / generate_aggregated_load_profile", "stand-alone generation"), (CORE, "UseCase.__init__ / calc_peak_time_range", "default use case")])

prop("C31", "Users are equal exactly when they are declared alike",
     "Two users compare equal if and only if they have the same name, number of users, preference and equal appliances in the same order, whatever was simulated or to which use case they belong; the comparison is symmetric, and a user is never equal to something that is not a user.",
     ["inputs"], "all names of a set, numbers, preferences and appliances in the bounds",
     "one test compares converted users and relies on a defect of the comparison", [CORE], [(CORE, "User.__eq__", "comparison")])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            files = []
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": c, "where": a + ": " + b} for a, b, c in p["mech"]]}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
            src = open(os.path.join(HERE, "checks", p["id"] + ".py")).read()
            checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                           "technique": "path-wise symbolic execution of the current source with an SMT solver (z3); counterexamples replayed on the real code",
                           "level": "model_checking",
                           "level_note": p["level_note"] or "every path of the encoded functions within the stated bounds is decided by the solver; bounds and what lies outside are in the evidence file and DESIGN.md; numpy, pandas, random, datetime and multiprocessing are modelled, and the model is validated against the real run on sampled path witnesses at every run"})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "claimed", len(na), "not applicable")


main()
