"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))


CORE = "ramp/core/core.py"
UT = "ramp/core/utils.py"
CST = "ramp/core/constants.py"
PP = "ramp/post_process/post_process.py"
CLI = "ramp/cli.py"
RUN = "ramp/ramp_run.py"
CONV = "ramp/ramp_convert_old_input_files.py"
EX = "ramp/example/examples.py"

p("C01", "Power is drawn only inside the randomised windows of use",
  "On each simulated day, the load profile of an appliance is zero at every minute outside its windows of use of that day. Each window of that day is obtained from the declared window of the same rank by shifting its start and its end independently by at most the window's declared variability (random_var_w times the length of that window, truncated), then clipping it to the range 0 to 1440. A randomised window never ends before it starts when random_var_w is between 0 and 1.",
  ["inputs", "histories"], "every appliance configuration, every draw of the random generator, every day of a simulation",
  "tests compare a few statistics of single profiles; no test looks at where the power falls for windows near midnight or with a large variability",
  [CORE], [("calc_rand_window", "Appliance.calc_rand_window"), ("mask and switch-on events", "Appliance.generate_load_profile"), ("variability of each window", "Appliance.windows")],
  [("daily_use", "profile of the current day", "Appliance.daily_use"), ("random_var_1..3", "variability in minutes", "Appliance.random_var_k")], ["Appliance.daily_use after generate_load_profile"])
p("C02", "Flat appliances follow their windows exactly",
  "On a day on which it is used, an appliance declared flat draws at every minute of each of its three windows of that day exactly its number times the value of its power series for that day, and nothing elsewhere. No other random variation, switch-on event or duty cycle is applied to it.",
  ["inputs", "configurations"], "every flat appliance, day index and power series",
  "no test simulates a flat appliance with a power series or several windows",
  [CORE], [("flat branch", "Appliance.generate_load_profile")], [("power", "one value per day", "Appliance.power")], ["Appliance.daily_use"])
p("C03", "The daily time of use is bounded by func_cycle and the windows",
  "The total time of use drawn for an appliance for a day is an integer that is at least func_cycle and at most 99% of the summed length of its three windows of that day; when these two bounds cannot both hold a ValueError is raised. Unless one of these bounds applies, it is the rounded value of a uniform draw between func_time and the truncated product of func_time with a uniform draw in [1-v, 1+v], where v is time_fraction_random_variability.",
  ["inputs"], "every func_time, func_cycle, variability and windows, every draw",
  "the two existing tests try one or two settings with a few random draws",
  [CORE, UT], [("rand_total_time_of_use", "Appliance.rand_total_time_of_use"), ("random_variation", "ramp.core.utils.random_variation")], (), ["return value of rand_total_time_of_use"])
p("C04", "Switch-on events fill the drawn time of use and never exceed it",
  "On a day, switch-on events of a non-flat appliance are generated one after the other until their summed duration reaches the time of use drawn for that day, or until no free time range can host another event. The event that would exceed the drawn time is shortened at its end by exactly the excess, so that the minutes recorded for the day never exceed the drawn time, and no event follows it.",
  ["inputs", "histories"], "every sequence of switch-on events drawn for a day",
  "tests only check the outcome of single switch-on events",
  [CORE], [("switch-on loop", "Appliance.generate_load_profile")], [("tot_time", "duration of the events so far", "Appliance.generate_load_profile")], ["calls to update_daily_use"])
p("C05", "A switch-on event fits in a free range and lasts at least func_cycle",
  "Each switch-on event drawn for an appliance is a run of consecutive minutes which lies entirely inside one of the time ranges still free, lasts at least func_cycle minutes (one minute if func_cycle is 0) before any shortening by the duty cycle or by the time of use, and no longer than the time of use drawn for the day. Every start minute of a free range that leaves room for func_cycle minutes can be drawn. If no free range is long enough, no event is drawn.",
  ["inputs", "histories"], "every list of free ranges, every time of use and func_cycle",
  "test_switch_on samples a handful of ranges",
  [CORE], [("rand_switch_on_window", "Appliance.rand_switch_on_window")], [("free_spots", "time ranges without event yet", "Appliance.free_spots")], ["return value of rand_switch_on_window"])
p("C06", "Minutes of a placed event are withdrawn from the free time, and only those",
  "After a switch-on event is recorded, the minutes of the event are no longer in any of the free time ranges, while all the other minutes that were free remain free. Thus two events of the same day never share a minute as long as the windows of that day do not overlap. At the beginning of the simulation of a day, the free ranges are exactly the non-empty windows of that day.",
  ["inputs", "histories"], "every position of the event in the free range, every list of free ranges",
  "tests check four positions on one list",
  [CORE], [("update_available_time_for_switch_on_events", "Appliance.update_available_time_for_switch_on_events"), ("initial free ranges", "Appliance.generate_load_profile")],
  [("free_spots", "time ranges without event yet", "Appliance.free_spots")], ["Appliance.free_spots"])
p("C07", "Coincidence is between 1 and the number of appliances",
  "For an appliance of n >= 1 units, the number of units which switch on together at an event is an integer between 1 and n. If the appliance is declared fixed, it is always n.",
  ["inputs"], "every n, every draw of the random generator, on-peak and off-peak",
  "no test calls the coincidence calculation with extreme draws",
  [CORE], [("calc_coincident_switch_on", "Appliance.calc_coincident_switch_on")], (), ["return value of calc_coincident_switch_on"])
p("C08", "Peak-time events follow eq. 4, off-peak events follow eq. 3",
  "A switch-on event counts as on-peak exactly when at least one of its minutes lies between the first and the last minute of the peak time range, both included. For a non-fixed appliance of n units, an on-peak event draws its coincidence from a normal law of mean n times mu_peak and standard deviation n times mu_peak times s_peak, rounded up; an off-peak event draws a uniform probability between 0 and (n - op_factor)/n and switches on as many units as there are values of 0/n, 1/n, ..., (n-1)/n that do not exceed it. In both cases between 1 and n units are switched on, and always all n for a fixed appliance. Changing one of the calibration parameters mu_peak, s_peak and op_factor changes only the role it is documented for.",
  ["inputs", "configurations"], "every event position relative to the peak range, every n and calibration",
  "the calibration values are all equal by default, so that no test can tell them apart, and no test covers all the positions of an event",
  [CORE, UT, CST], [("within_peak_time_window", "ramp.core.utils.within_peak_time_window"), ("calc_coincident_switch_on", "Appliance.calc_coincident_switch_on"), ("switch_on_parameters", "ramp.core.constants.switch_on_parameters")], (), ["arguments of the random draws"])
p("C09", "Power of a switch-on event",
  "During a switch-on event, an appliance without duty cycle draws the coincidence times the power of the day times one random factor in [1 - thermal_p_var, 1 + thermal_p_var], at each minute of the event; an appliance with duty cycles draws the coincidence times the values of the duty cycle selected for this event, repeated from its start. No minute outside the event is modified. The power of the day is the value of the appliance's power series at the index of the simulated day, in serial and in parallel processing.",
  ["inputs", "configurations"], "every event, coincidence, power series, day index and duty cycle",
  "tests of duty cycles use a single appliance and day",
  [CORE, UT], [("update_daily_use", "Appliance.update_daily_use"), ("choice of the day's power", "User.generate_single_load_profile")], [("current_duty_cycle_id", "duty cycle selected for the event", "Appliance.current_duty_cycle_id")], ["Appliance.daily_use"])
p("C10", "The duty cycle of an event is the first one whose window it overlaps",
  "For an appliance with duty cycles, an event is assigned the duty cycle of lowest rank k among 1, 2, 3 such that the event overlaps (bounds included) one of the windows cwk1 and cwk2. An event which overlaps none of the six windows is never used: the user is warned and another event is drawn under the same conditions. When continuous_duty_cycle is 0 an event longer than its duty cycle is cut at its end to the length of that cycle, otherwise its duration is left as drawn. With a single duty cycle (fixed_cycle 1), the windows of use 1 and 2 of the appliance are the windows of the cycle unless others are given.",
  ["inputs", "configurations"], "every event position and duty cycle window, each cycle rank",
  "tests use one duty cycle window per run",
  [CORE, UT], [("rand_switch_on_window", "Appliance.rand_switch_on_window"), ("range_within_window", "ramp.core.utils.range_within_window")], [("current_duty_cycle_id", "duty cycle selected for the event", "Appliance.current_duty_cycle_id")], ["return value of rand_switch_on_window"])
p("C11", "Duty cycles are composed from their own parameters",
  "The duty cycle k of a day consists of power p_k1 during t_k1 minutes followed by p_k2 during t_k2 minutes, each power multiplied by its own random factor in [1 - thermal_p_var, 1 + thermal_p_var] and each duration multiplied by a random factor in [1 - r_ck, 1 + r_ck] and truncated. With fixed_cycle equal to 3 or more each of the three cycles is used either in this order or with its two parts swapped; with fixed_cycle 2 the cycles 1 and 2 keep their order; with fixed_cycle 1 the three cycles are the first one.",
  ["inputs", "configurations"], "every fixed_cycle value and all parameters of the three cycles",
  "no test covers the third duty cycle, nor mixes parameters of several cycles",
  [CORE, UT], [("assign_random_cycles", "Appliance.assign_random_cycles"), ("duty_cycle", "ramp.core.utils.duty_cycle"), ("random_choice", "ramp.core.utils.random_choice"), ("random_variation", "ramp.core.utils.random_variation")], [("random_cycle1..3", "cycles of the day", "Appliance.random_cyclek")], ["Appliance.random_cycle1..3"])
p("C12", "An appliance is used only on the days it is allowed to be used",
  "The profile of an appliance for a day is entirely zero if a uniform draw in [0, 1] exceeds occasional_use, or if its pref_index is not 0 and differs from the preference drawn for that day for its user, or if wd_we_type is neither 2 nor the type of that day, or if func_time is 0. In all the other cases the appliance is simulated on that day.",
  ["inputs", "configurations"], "every combination of occasional_use, pref_index and daily preference, wd_we_type and day type, func_time",
  "tests exercise func_time 0 and nothing else of the gate",
  [CORE], [("gate at the beginning of the day", "Appliance.generate_load_profile"), ("daily preference", "User.generate_single_load_profile")], [("rand_daily_pref", "preference of the user for the day, 0 if user_preference is 0 else an integer in 1..user_preference", "User.rand_daily_pref")], ["Appliance.daily_use"])
p("C13", "Weekend days are exactly Saturdays and Sundays",
  "A date is of type weekend (1) if and only if it is a Saturday or a Sunday, whether it is given as a date object or as an ISO string, and of type weekday (0) otherwise; each day of a simulation is simulated with the type of its own date. The yearly pattern of a given year has one entry for each day from January 1st to December 31st of that year holding the type of that day; without a year it has 365 entries and starts on a Monday.",
  ["inputs"], "every date, every year",
  "the existing year behaviour test is not collected and covers a few years",
  [UT], [("get_day_type", "ramp.core.utils.get_day_type"), ("yearly_pattern", "ramp.core.utils.yearly_pattern")], (), ["return values"])
p("C14", "The profile of a day does not depend on the days simulated before",
  "Apart from the values drawn by the random generator, simulating a day for an appliance, a user or a use case gives a result that depends only on their configuration and on that day, not on what was simulated before with the same objects. Simulating never changes the configuration of users and appliances (windows, powers, duty cycles, numbers, flags).",
  ["histories"], "every sequence of simulated days, users and repeated runs on the same objects",
  "tests create new objects each time; a leak from one day to the next one only shows as a slightly different random profile",
  [CORE], [("reinitialisation of the state of the day", "Appliance.generate_load_profile"), ("reset of user load", "User.generate_aggregated_load_profile")], [("daily_use, free_spots, random_cycle1..3, current_duty_cycle_id", "state of the day", "Appliance"), ("load, rand_daily_pref", "state of the day", "User")], ["fields read before they are written"])
p("C15", "The profile of the use case is the sum of all its appliances",
  "In serial processing, row d of the generated profiles is, for the d-th day, the sum over all users, over each of the num_users single users of each user, and over all the appliances of that user, of the profile generated by that appliance for that day index, with the peak time range of the use case and the type of that day; each of them is generated anew and counted exactly once. The sum does not alter the profiles it adds: the daily_use of each appliance is still the last profile that appliance generated. The flattened output, which is the default, lists the same values day after day, each day having 1440 minutes.",
  ["inputs", "configurations"], "every set of users, appliances, numbers of users and days",
  "tests check the shape of the output, or a single appliance",
  [CORE], [("generate_daily_load_profiles", "UseCase.generate_daily_load_profiles"), ("generate_aggregated_load_profile", "User.generate_aggregated_load_profile"), ("generate_single_load_profile", "User.generate_single_load_profile")], [("load", "aggregated load of the user for the day", "User.load")], ["return values"])
p("C16", "Parallel processing simulates the same units of work as serial processing",
  "In parallel processing, one task is executed for each day, user, single user and appliance, with the same day index, peak time range, day type, power of the day and rule to draw the daily preference (one draw per single user and day shared by all its appliances) as in serial processing. The profile of a day is the sum of the results of all the tasks of that day and of no other, and a day without tasks has a zero profile.",
  ["inputs", "schedules"], "every set of users and appliances, every order of completion of the tasks",
  "tests run the parallel mode once and do not compare it with the serial one",
  [CORE], [("generate_daily_load_profiles_parallel", "UseCase.generate_daily_load_profiles_parallel"), ("single_appliance_daily_load_profile", "ramp.core.core")], (), ["tasks given to the pool", "return value"])
p("C17", "A random seed determines the results",
  "Creating a use case with a given random_seed (any value other than None, including 0) seeds the random generator before any random number is drawn on its behalf, and all the randomness of a simulation comes from that generator. In parallel processing each task is reseeded from a value drawn from that generator, and the results do not depend on the order in which the tasks complete.",
  ["inputs", "schedules", "histories"], "every seed, entry path (dates given or not) and processing mode",
  "no test sets a seed",
  [CORE, UT], [("seeding", "UseCase.__init__"), ("seeding of tasks", "single_appliance_daily_load_profile")], (), ["sources of randomness reachable from the simulation"])
p("C18", "The peak time range is a non-empty range around the peak window",
  "The peak window is the set of minutes at which the summed maximum profile of all users is maximal; the peak time is the rounded draw of a normal law whose mean is the rounded average of the peak window and whose standard deviation is a third of its extent. The peak time range consists of the consecutive minutes from the peak time minus e to the peak time plus e excluded, where e is the rounded absolute deviation of a normal draw around the peak time with standard deviation peak_enlarge times the peak time, and at least 1, so that the range is never empty. It is calculated with the peak_enlarge value passed to the calculation if any, else with the one of the use case. A user simulated without a given peak time range uses that stored in its use case, calculated if there is none yet, and a user without use case that of a new use case of this user alone.",
  ["inputs"], "every set of users and appliances, every draw",
  "the existing tests check the length of the range for two values of peak_enlarge",
  [CORE], [("calc_peak_time_range", "UseCase.calc_peak_time_range")], [("peak_time_range", "minutes counted as on-peak", "UseCase.peak_time_range")], ["return value of calc_peak_time_range"])
p("C19", "The peak time range is kept up to date",
  "Initialising a use case (with or without a new peak_enlarge value, also when forced), assigning a valid peak_enlarge and loading users into an initialised use case each recalculate the stored peak time range after taking the new values into account. Assigning a peak_enlarge that is not a float raises TypeError, a negative one raises ValueError, and in both cases neither the stored peak_enlarge nor the stored range change.",
  ["histories", "inputs"], "every sequence of initialisations, assignments and loads",
  "tests initialise a use case once",
  [CORE], [("initialize", "UseCase.initialize"), ("peak_enlarge setter", "UseCase.peak_enlarge"), ("load", "UseCase.load")], [("peak_time_range", "minutes counted as on-peak", "UseCase.peak_time_range"), ("_peak_enlarge", "value of the last valid assignment", "UseCase")], ["UseCase.peak_time_range"])
p("C20", "Maximum profile of appliances and users",
  "The maximum profile of an appliance equals its number times the mean of its power series at the minutes of its three declared windows, and zero elsewhere, before as well as after simulations. The maximum profile of a user is the sum of those of all its appliances multiplied by num_users.",
  ["inputs", "histories"], "every configuration of appliances, before and after simulations",
  "tests compute it once on new objects, indirectly",
  [CORE], [("maximum_profile", "Appliance.maximum_profile"), ("maximum_profile", "User.maximum_profile")], (), ["maximum_profile"])
p("C21", "The simulated days follow from the dates and the number of days",
  "With both dates, the simulated days run from the start date to the end date included; with the start date and a number of days n they are n days from the start date; with the end date and n they are n days ending at the end date; with n only they are n days from today. With both dates and a different n, they are n days from the start date. A date is given as a date or as text in ISO format, and an assigned date replaces only that date. In all the cases the number of days equals the length of the list of days, and the datetime index has one entry per minute from the first minute of the first day to the last minute of the last day.",
  ["inputs", "configurations"], "every combination of start date, end date and number of days",
  "tests cover a few combinations with fixed dates",
  [CORE], [("initialize", "UseCase.initialize")], [("days", "list of days", "UseCase.days"), ("num_days", "number of days", "UseCase.num_days"), ("datetimeindex", "minutes", "UseCase.datetimeindex")], ["UseCase.days, num_days, datetimeindex"])
p("C22", "An initialised use case changes its days only when forced",
  "A use case created with both dates is initialised at creation. Calling initialize on an initialised use case without force leaves its days, number of days, datetime index and peak time range unchanged; with force they are all recalculated from the current dates and the new arguments, so that changed dates are taken into account. num_days and datetimeindex initialise the use case if it is not yet initialised.",
  ["histories"], "every sequence of creation, date assignment and initialisation",
  "no test initialises a use case twice",
  [CORE], [("initialize", "UseCase.initialize"), ("is_initialized", "UseCase.is_initialized")], [("num_days, datetimeindex, peak_time_range", "set when initialised", "UseCase")], ["UseCase.days, num_days, datetimeindex, peak_time_range"])
p("C23", "Power series cover the simulated days",
  "When a use case is initialised, or users are loaded into an initialised use case, every appliance of every user has at that moment at least as many power values as there are days to simulate: a constant power is extended with the same value with a warning, a shorter series raises ValueError, and a long enough series is left unchanged. A constant power given to an appliance of a user whose use case is initialised already has at least as many values as there are days, and otherwise at least 366.",
  ["inputs", "configurations"], "every length of power series and number of days, appliances added before or after the creation of the use case",
  "tests never simulate more than 366 days",
  [CORE], [("check_power_values", "Appliance.check_power_values"), ("initialize", "UseCase.initialize"), ("load", "UseCase.load")], [("power", "one value per day", "Appliance.power")], ["Appliance.power"])
p("C24", "Saving exports every parameter of every appliance",
  "The exported table of a use case has one row per appliance of each user, in order, holding the user's name, number of users and preference and the value of each constructor parameter, window, window variability and duty cycle parameter of the appliance under the column of that name; a window or duty cycle window is exported as its start under the column ending with _start and its end under the column ending with _end. Saving to a file writes the same table without an index column to <filename>.xlsx. A user exports the rows of its own appliances likewise, and saves them to <filename>.xlsx.",
  ["inputs", "configurations"], "every appliance and parameter value",
  "tests compare few parameters, mostly with default values",
  [CORE, CST], [("save", "Appliance.save, User.save, UseCase.save"), ("APPLIANCE_ATTRIBUTES", CST)], (), ["exported table"])
p("C25", "Loading restores every exported parameter",
  "For each row of an input file, an appliance is added to the user of that row with each appliance parameter, window variability and duty cycle parameter whose cell is not empty given the value of the cell of that name, each window whose start and end cells are not empty given that pair, and all the others left to their default. Parameters of one row never reach another row, and the loaded appliances are added to those already in the use case.",
  ["inputs"], "every column, present or absent, empty or not, in every row",
  "tests load three files with nearly the same columns",
  [CORE, CST], [("load", "UseCase.load"), ("APPLIANCE_ARGS, WINDOWS_PARAMETERS, DUTY_CYCLE_PARAMETERS", CST)], (), ["arguments of User.add_appliance"])
p("C26", "Loading groups the rows by user and rejects contradictions",
  "Loading creates one user per distinct user name with the number of users and the preference of its rows, and gives it exactly the appliances of those rows. Rows of one user with different num_users or user_preference raise ValueError, an empty user_preference cell counts as 0. After loading, the list of appliances of the use case is that of all its users.",
  ["inputs"], "every table of users",
  "tests only load consistent files",
  [CORE], [("load", "UseCase.load")], (), ["UseCase.users"])
p("C27", "A power series is exported entirely unless it is constant",
  "The power of an appliance is exported as a single value if and only if all the values of its power series are equal; otherwise the whole series is exported, in order.",
  ["inputs"], "every power series",
  "tests export one increasing series",
  [CORE], [("save", "Appliance.save")], (), ["power column of the exported table"])
p("C28", "Power inputs are validated and read from the values column",
  "In an input file, a power series given as a json array or as a range of cells must have exactly 366 values and a range of cells at most two columns; anything else, as well as text that is not json, raises ValueError. The range is read from the sheet it names, be the name between quotes or not. Of a two columns range (timestamps, values) the values are used, in order. A power given to an appliance as a number is a constant over the simulated days, as a DataFrame its first column, as json text its last column; other types raise ValueError.",
  ["inputs"], "every power cell and power argument",
  "tests cover valid one column series and one invalid case",
  [CORE, UT], [("read_input_file", UT), ("power of Appliance", "Appliance.__init__")], (), ["Appliance.power", "ValueError"])
p("C29", "One-call and step-by-step definitions of an appliance are equivalent",
  "User.add_appliance called with constructor, window and duty cycle arguments creates the same appliance as creating it with the constructor arguments and then calling windows and specific_cycle with the rest: every argument reaches the parameter of that name. Positional arguments follow the documented order of the constructor, and the legacy methods User.Appliance and cycle_behaviour pass each of their arguments to the parameter it stands for, with the same defaults.",
  ["inputs", "configurations"], "every subset of arguments",
  "tests compare two settings out of all combinations",
  [CORE, CST], [("add_appliance", "User.add_appliance"), ("specific_cycle", "Appliance.specific_cycle"), ("APPLIANCE_ARGS", CST)], (), ["attributes of the appliance"])
p("C30", "Inconsistent windows are refused",
  "Declaring windows raises InvalidWindow if a second or third window is missing while two or three windows are declared, or if the summed length of the declared number of windows is smaller than func_time, and then the appliance is not added to its user by that call. Otherwise the windows are stored as given (the first one being the whole day with a warning if missing), each variability is the truncated product of random_var_w with the length of its own window, and the appliance is added to its user.",
  ["inputs"], "every number of windows, windows and func_time",
  "tests cover a missing window only",
  [CORE], [("windows", "Appliance.windows")], [("window_1..3, random_var_w, random_var_1..3", "declared windows", "Appliance")], ["InvalidWindow", "attributes of the appliance"])
p("C31", "Appliances are equal if and only if all their parameters are equal",
  "Comparing two appliances gives True if and only if each constructor parameter, window, window variability and duty cycle parameter (power series included) has the same value in both or is missing in both. The comparison never fails, also when power series or windows differ in length.",
  ["inputs"], "every pair of appliances",
  "tests only compare appliances that are equal",
  [CORE, CST], [("__eq__", "Appliance.__eq__"), ("APPLIANCE_ATTRIBUTES", CST)], (), ["Appliance == Appliance"])
p("C32", "Only users and appliances can be registered, and only once",
  "Adding anything else than a User or a list of User to a use case raises InvalidType, and adding anything else than an Appliance to a user as instance raises TypeError, without registering it. A registered user knows its use case; an appliance equal to one already registered is not registered again; an appliance without name is named after its position. Users and appliances keep the order in which they were added.",
  ["inputs", "histories"], "every argument and sequence of additions",
  "tests add one user and one or two appliances",
  [CORE], [("add_user", "UseCase.add_user"), ("_add_appliance_instance", "User")], [("users", "registered users", "UseCase.users"), ("App_list", "registered appliances", "User.App_list")], ["UseCase.users, User.App_list"])
p("C33", "Conversion of legacy input files is idempotent and keeps the names",
  "Converting a legacy .py input file appends the naming code to the file only if it is not there yet and names are to be kept, replaces the legacy import statements only, and leaves the other lines unchanged. The users defined in that very file are exported to <output folder>/<file name without .py><suffix>.xlsx, the output folder being that of the input file by default.",
  ["inputs", "histories"], "every input file, repeated conversions",
  "tests convert three files once from the repository root",
  [CONV], [("convert_old_user_input_file", CONV)], (), ["input file after conversion", "output path"])
p("C34", "Command line dates, years and days are completed consistently",
  "On the command line, -y cannot be combined with a start or an end date; with -y the simulation runs from January 1st of the first year to December 31st of the last one. Without -n, a missing start date is January 1st of the year of the end date and a missing end date is December 31st of the year of the start date. A single -n applies to all input files, otherwise the number of -n values and, if -o is given, of output paths must equal the number of input files, and value i is used for input file i, else ValueError is raised before any simulation.",
  ["inputs", "configurations"], "every combination of options",
  "tests cover about ten combinations",
  [CLI], [("main", "ramp.cli.main")], (), ["arguments of run_usecase"])
p("C35", "One input file per month: each month is simulated with its own file",
  "With one year and a directory as input, the input files are ordered by the number in their name; only those with the given extension (.xlsx by default) count, and unless there are exactly 12 of them ValueError is raised. File i is simulated from the first to the last day of month i of that year (leap years included), and the profiles are concatenated in month order into one series indexed by every minute of that year, written to the output folder (the current one by default, created if missing) at minute resolution and as hourly mean, max and min.",
  ["inputs", "configurations"], "every year and directory",
  "one test runs one year",
  [CLI], [("main", "ramp.cli.main")], (), ["arguments of run_usecase", "output files"])
p("C36", "Each input file is run according to its type and exported to its own path",
  "An .xlsx input file is loaded in a use case with the given dates, number of days and processing mode (serial unless -p is given), and its profiles are either exported (to the given output path if any) or returned; a .py file is executed by the running interpreter if it exists, else FileNotFoundError is raised, as it is an error if it fails; any other file type raises TypeError. Results are written to the given output path if any, else to a default path in the results folder that contains the name of the input file.",
  ["inputs"], "every file name, output path and option",
  "tests run a few files",
  [RUN, PP], [("run_usecase", RUN), ("export_series", PP), ("old_post_process", PP)], (), ["use case arguments", "output path"])
p("C37", "User-supplied text never reaches a shell or an evaluator",
  "No command line argument, file name or content of a spreadsheet is ever interpreted by a shell or evaluated as code. The only code executed on behalf of the user is that of a .py input file, by running it with the current interpreter with an argument list, or by importing it for its conversion.",
  ["inputs"], "every file name and spreadsheet content",
  "tests use plain file names",
  ["ramp"], [("run of .py files", RUN), ("import of legacy files", CONV)], (), ["calls that execute code, in the whole package"])
p("C38", "Plot operations do not modify the data they are called on",
  "Resampling (unless inplace), selecting, averaging, summing, comparing, copying and plotting never modify the data of the Plot object they are called on, and a copy shares no data with its original. Resampling divides the data by the conversion factor and applies the given rule at the given frequency; with inplace it stores that result in the object and returns nothing, otherwise returns it as a new Plot.",
  ["histories", "inputs"], "every Plot operation and argument",
  "there are no tests of Plot besides notebooks",
  [PP], [("Plot", PP)], [("df", "data of the Plot", "Plot.df")], ["Plot.df before and after"])
p("C39", "Plot only holds dataframes with a datetime index",
  "Creating a Plot or assigning its data accepts only a DataFrame with a DatetimeIndex, else ValueError is raised and the data are unchanged; a given index replaces that of the data without modifying the caller's DataFrame. A column is only added if its index equals that of the data. A Plot read from a .csv or .xlsx file takes the first column as index and the given separator or sheet, other file types raise ValueError.",
  ["inputs"], "every argument type",
  "there are no tests of Plot besides notebooks",
  [PP], [("_validate_df", "Plot._validate_df"), ("from_file", "Plot.from_file"), ("add_column", "Plot.add_column")], [("df", "data of the Plot", "Plot.df")], ["Plot.df", "ValueError"])
p("C40", "Average, kW and series views of the profiles",
  "For a list of daily profiles, the average profile is their sum divided by their number, the kW profiles are each profile divided by 1000 in the same order, and the series is the concatenation of all profiles in order. The exported file holds exactly that series.",
  ["inputs"], "every list of daily profiles",
  "tests only check that post-processing runs",
  [PP], [("Profile_formatting", PP), ("old_post_process", PP)], (), ["return value", "exported file"])
p("C41", "Comparison tools of Plot",
  "The error of a column with respect to a validated one is (column - validated) / validated * 100 at each time step, 0 where that is not a number. The row-wise mean and sum cover all the columns, the peak of each column consists of all its time steps where it equals its maximum, and the load duration curve of a column is sorted in decreasing order against ranks starting at 1. A shadow plot requires a main column exactly when no average is requested, else ValueError is raised; its main curve is that column, or else the row-wise mean.",
  ["inputs"], "every data and columns",
  "there are no tests of Plot besides notebooks",
  [PP], [("Plot", PP)], (), ["return values"])
p("C42", "Bundled examples are complete",
  "download_example copies, under the same name, every example input file together with the data files those examples read, and every file it copies and every data set listed as available exists in the package. An example defines users and reads its data files from its own folder, so that it runs wherever it was copied. Asking for an unknown data set raises ValueError.",
  ["configurations"], "every bundled file",
  "no test calls download_example",
  [EX, "ramp/example"], [("download_example", EX), ("load_data", EX)], (), ["copied files"])
p("C43", "Several cases are independent runs of the same use case",
  "Generating profiles for several cases runs one new simulation per case, and returns a Plot with one column per case, labelled after it, holding that run's flattened profile against the datetime index of the use case.",
  ["inputs"], "every list of cases",
  "one notebook uses it without checking values",
  [CORE], [("generate_daily_load_profiles", "UseCase.generate_daily_load_profiles")], (), ["returned Plot"])
p("C44", "Users are equal if and only if their parameters and appliances are equal",
  "Comparing two users gives True if and only if they have the same name, number of users and preference and the same number of appliances, the appliances being pairwise equal in order. The comparison of two users never fails.",
  ["inputs"], "every pair of users",
  "the only tests which compare users pass because all users are equal",
  [CORE], [("__eq__", "User.__eq__")], (), ["User == User"])
p("C45", "Plot selects, shows and exports exactly the data asked for",
  "Selecting from a Plot by name, label (loc), position (iloc) or number of first rows (head) returns a new Plot which holds exactly those rows and columns, in the order asked for. Line and area plots draw the chosen columns, all of them by default, with the engine asked for (in upper or lower case); another engine raises ValueError. The columns, index and frequency are those of the data; exporting to .csv or Excel writes all columns with the index to the given path, .csv with the given separator.",
  ["inputs"], "every data and selection",
  "there are no tests of Plot besides notebooks",
  [PP], [("Plot", PP)], (), ["returned Plot", "written file", "drawn data"])
# not claimed (see MANIFEST not_applicable)
p("N01", "The simulation of a day terminates",
  "For every accepted configuration of an appliance, the simulation of a day ends, either with a profile or with an error that tells which parameter is inconsistent.",
  ["inputs", "histories"], "every configuration and draw",
  "a test that ends proves nothing about other draws",
  [CORE], [("rand_switch_on_window", "Appliance.rand_switch_on_window")])
p("N02", "Average profiles match the calibrated behaviour",
  "Averaged over many days, the simulated profiles of a user category reproduce the expected energy use (power times number times func_time, weighted by occasional_use) and coincidence within statistical error.",
  ["inputs", "histories"], "the distribution over all random draws",
  "the qualitative test compares a plot by eye",
  [CORE], [("generate_daily_load_profiles", CORE)])
p("N03", "A saved and reloaded use case is numerically identical",
  "Saving a use case to a spreadsheet and loading it again gives appliances whose every parameter has exactly the same value and type, whatever the spreadsheet library does with the cells.",
  ["inputs"], "every value that can be written in a cell",
  "tests round-trip three files",
  [CORE, UT], [("save and load", CORE)])
p("N04", "Parallel processing is faster than serial processing",
  "On a machine with several cores, generating the profiles of a large use case in parallel takes less time than in serial processing.",
  ["configurations"], "every machine and use case",
  "tests do not measure time",
  [CORE], [("generate_daily_load_profiles_parallel", CORE)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        fp.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
