import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
PD="hrosailing/polardiagram/"
p("C01","Saved polar diagrams load back identical",
 "A polar diagram of any kind that was saved loads back, from any later process and under any spelling of its path, as a diagram of the same kind with exactly the same content: wind speeds, wind angles modulo 360 degrees, boat speeds, order of points, function and parameters, order and names of sails. For tables this holds in every file format offered for saving and loading, and the files in the external formats (orc, opencpn, array) are readable by, and can come from, other programs. No save changes what any other saved diagram loads as.",
 ["inputs","histories","fault_sequences"],
 "all diagrams (shapes, float values, names), formats, path forms, and all histories of saves, overwrites, loads, re-saves and process restarts in one directory tree, under transparent disk faults (short reads and writes, interrupted calls)",
 "The tests save three hand-written diagrams once, mostly to a mocked or fixed file; no history of overwrites, sail names with separators, dotted directories, one-row tables or extreme floats is ever read back.",
 [PD+"_polardiagramtable.py",PD+"_polardiagrampointcloud.py",PD+"_polardiagramcurve.py",PD+"_polardiagrammultisails.py",PD+"_reading.py"],
 [("to_csv of every diagram class",PD),("from_csv and the format readers",PD+"_reading.py"),("_get_sub_csv_path",PD+"_polardiagrammultisails.py")],
 [("csv files","the saved diagrams; a multi-sail diagram is a main file and one file per sail","file system")],["to_csv","from_csv"])
p("C02","A failed save is reported and harms nothing else",
 "If the disk fails while a polar diagram is being saved (opening, writing or closing fails, or the disk is full), the save either raises an OSError or leaves files that load as exactly the saved diagram; it never reports success for an incomplete file. The diagram in memory, all files that do not belong to the save, and the ability to save successfully afterwards are unaffected, and no file handle stays open.",
 ["fault_sequences","inputs"],"all diagram kinds and formats, every position and kind of disk failure during the save, followed by retries",
 "No test lets a disk operation fail.",
 [PD+"_polardiagramtable.py",PD+"_polardiagrampointcloud.py",PD+"_polardiagramcurve.py",PD+"_polardiagrammultisails.py"],
 [("`with open(...)` around every writer",PD)],[("csv files","files written by the save","file system")],["to_csv","from_csv"])
p("C03","A save interrupted by a crash never loads as something else",
 "If the process or machine dies at any point while a polar diagram is being saved - leaving the files cut off, or with lost (zero-filled) ends - then loading those files afterwards either raises an error or gives a diagram in which every entry, except possibly the very last number being written, is an entry of the saved diagram at its place; entries are never shifted, padded or invented. Files of a multi-sail diagram may mix the old and the new save only per sail. The same files can be saved again and then load correctly.",
 ["crash_points","inputs","histories"],"all diagram kinds and formats, every byte at which the save can stop, torn and zero-filled tails, older content at the same path",
 "No test stops a save half way or reads a damaged file.",
 [PD+"_reading.py",PD+"_polardiagramtable.py",PD+"_polardiagrampointcloud.py",PD+"_polardiagramcurve.py",PD+"_polardiagrammultisails.py"],
 [("shape checks of PolarDiagramTable",PD+"_polardiagramtable.py"),("completeness check of points",PD+"_polardiagrampointcloud.py"),("literal_eval of every number",PD)],
 [("csv files","possibly incomplete","file system")],["from_csv"])
p("C04","Read failures surface, never as partial results",
 "Reading a polar diagram, a weather file, a csv log or an NMEA log either returns what an undisturbed read returns or raises an error: a failing open or read never yields a partial or empty result. Reading changes no file, leaves no file handle open and leaves nothing behind that changes a later read.",
 ["fault_sequences","inputs"],"all file kinds, every read operation at which the disk fails, short and interrupted reads, histories of failing and succeeding reads",
 "No test lets a read fail.",
 [PD+"_reading.py","hrosailing/models/weather_model.py","hrosailing/processing/datahandler.py"],
 [("`with open(...)` around every reader",PD+"_reading.py"),("NMEAFileHandler / CsvFileHandler","hrosailing/processing/datahandler.py")],(),["from_csv","GriddedWeatherModel.from_file","DataHandler.handle"])
p("C05","Weather files preserve the weather model",
 "A gridded weather model that was saved to a file loads back as a model with the same grid (times to the microsecond and with their time zones, latitudes, longitudes), the same attributes and the same values, and answers every query identically. A weather file that is cut off at any byte, damaged, or written under a failing disk never loads as a different model: the save or the load raises an error.",
 ["crash_points","fault_sequences","inputs"],"all weather grids, all points at which writing stops or fails, all histories of saves and loads",
 "There is no test of weather models at all.",
 ["hrosailing/models/weather_model.py"],[("to_file / from_file","hrosailing/models/weather_model.py")],(),["GriddedWeatherModel"])
p("C06","Measurement logs are read record by record, whatever is lost",
 "Reading an NMEA log or a csv log yields exactly the measurements the log contains, each at the row of its record and in the order of the log, however sentences were lost, duplicated, delayed, reordered, damaged or cut off in transmission: a sentence completes the current record if that has no value yet for any of the sentence's attributes, otherwise it begins a new record, and a sentence whose checksum shows damage is never read. Values that were not received are missing values, never values of other records; columns come out under the documented hrosailing names and have the same length.",
 ["inputs","fault_sequences"],"all message streams and all sequences of loss, duplication, reordering, corruption and truncation, for every combination of sentence types and for handlers that are used repeatedly",
 "The tests read one short well-formed file.",
 ["hrosailing/processing/datahandler.py","hrosailing/core/data.py"],[("NMEAFileHandler, CsvFileHandler, ArrayHandler","hrosailing/processing/datahandler.py"),("Data.compress","hrosailing/core/data.py")],(),["DataHandler.handle"])
p("C07","Pipeline runs do not depend on earlier runs",
 "The result of running a pipeline on given data (polar diagram, flags and statistics except the measured time) depends only on how the pipeline was configured and on the arguments of that call: it equals the result of a freshly built pipeline, whatever was run before with the same pipeline, with whatever arguments, and also when earlier runs failed because any of the components raised an error.",
 ["histories","fault_sequences","configurations"],"all histories of pipeline calls with varying data and flags, with any component failing at any of its calls",
 "No test runs a pipeline even once.",
 ["hrosailing/pipeline/pipeline.py","hrosailing/pipeline/extensions.py"],[("PolarPipeline.__call__","hrosailing/pipeline/pipeline.py")],
 [("pipeline components","configured once, used by every run","hrosailing/pipeline/pipeline.py")],["PolarPipeline.__call__"])
p("C08","Concurrent use gives the results of sequential use",
 "Independent pipelines run in several threads, and queries on shared polar diagrams and weather models from several threads (interpolated boat speeds, slices, weather, isochrones, saving and loading of different files), give under every interleaving the results they give one after the other.",
 ["schedules"],"all thread interleavings of independent pipelines and of read-only queries on shared objects",
 "No test starts a second thread.",
 ["hrosailing/pipeline/pipeline.py","hrosailing/processing/interpolator.py","hrosailing/processing/neighbourhood.py",PD+"_polardiagramtable.py",PD+"_polardiagrampointcloud.py","hrosailing/models/weather_model.py","hrosailing/cruising/basics.py"],
 [("default components shared between all diagrams",PD),("no module level mutable state","hrosailing")],(),["PolarPipeline.__call__","PolarDiagram.__call__","get_weather","isochrone"])
p("C09","Inputs of the caller are never modified",
 "No operation changes the objects the caller passes to it (arrays, lists, dicts, data tables, diagrams used for routing), and what the library stores or returns does not share memory with them or with its own state: changing an input afterwards does not change a diagram, weather model or data table built from it, and changing a returned view changes nothing. This also holds when the operation fails or is interrupted; live by design are only the columns of a data table, the diagrams inside a multi-sail diagram and the arrays of weighted points, and a component may pass an input on as its result.",
 ["inputs","histories","fault_sequences"],"all operations of diagrams, weather models, processing components, pipelines and routing, their failing calls included, in any order",
 "The tests compare return values; only few compare the arguments afterwards.",
 [PD,"hrosailing/core/computing.py","hrosailing/core/data.py","hrosailing/models/weather_model.py","hrosailing/cruising/basics.py","hrosailing/processing/","hrosailing/pipeline/"],
 [("read only properties returning copies",PD),("copies before in-place normalisation","hrosailing/core/computing.py")])
p("C10","Run statistics describe exactly their own run",
 "The statistics returned by a pipeline run report what that run's own components did to that run's own data (numbers of points before and after every stage, removed and filtered rows, weights), separately for training and test data. Statistics, diagrams and data returned by earlier runs never change when further runs are made, also not when these fail, and the reported execution time is the elapsed time even if the system clock jumps or runs backwards.",
 ["histories","fault_sequences","inputs"],"all histories of pipeline runs, component failures and clock jumps",
 "No test looks at the statistics of a pipeline run.",
 ["hrosailing/pipeline/pipeline.py","hrosailing/pipeline/extensions.py","hrosailing/pipeline/quality_assurance.py","hrosailing/core/statistics.py"],
 [("ComponentWithStatistics","hrosailing/core/statistics.py"),("_collect_stats and time measurement","hrosailing/pipeline/pipeline.py")],(),["PipelineOutput"])
p("C11","Weather lookups interpolate and fall back correctly",
 "A query to a gridded weather model inside the grid gives the multilinear interpolation in time, latitude and longitude of the stored values (stored values exactly at grid points, also on the borders), outside of the grid it is refused as out of range and never extrapolated. A combination of several weather sources answers every query with the attributes of all sources that cover it, a later source taking precedence over earlier ones, and with no attributes if none covers it, however the availability of the sources changes between queries. Grids fetched from a weather service or a NetCDF file hold at every grid point that point's own values, and a failed fetch is reported.",
 ["inputs","histories","fault_sequences"],"all grids, query points and sequences of provider outages",
 "There is no test of weather models at all.",
 ["hrosailing/models/weather_model.py"],[("GriddedWeatherModel.get_weather, MultiWeatherModel","hrosailing/models/weather_model.py")],(),["get_weather"])
p("C12","Weather reaches exactly the records it belongs to",
 "When measured records are completed with weather, every record keeps all of its measurements and gets the weather of its own time and position; records without a position or time, or for which the weather source has no answer, stay in place with missing values (or are dropped or left alone, exactly as configured), and no weather value ever moves to another record. A failure of the source other than having no answer fails the expansion and leaves the given records unchanged.",
 ["fault_sequences","inputs","configurations"],"all record sequences with missing fields and all outage patterns of the weather source, for every configuration of the expansion",
 "There is no test of the weather expansion.",
 ["hrosailing/pipeline/expander.py"],[("WeatherExpander","hrosailing/pipeline/expander.py")],(),["WeatherExpander.expand"])
p("C13","Routing always ends, with consistent results under weather outages",
 "Isochrones and trip costs come back in a bounded number of steps for every pattern of weather outages and calms along the way, or an error is raised; an isochrone's point lies exactly at the reported distance (in nautical miles) along the given course on a Mercator chart that is true to scale at the starting latitude, and distance and time agree, for isochrones and trip costs alike, with sailing through the time-dependent weather, where the vessel makes practically no way in a calm and where no weather is available. Asking does not change the polar diagram, the weather model or the request.",
 ["fault_sequences","inputs","schedules"],"all time-dependent weather patterns, outage windows, calms and trip parameters",
 "The tests call the routing functions with at most constant weather.",
 ["hrosailing/cruising/basics.py"],[("isochrone, cost_cruise, _Sailor-like sampling loops","hrosailing/cruising/basics.py")],(),["isochrone","cost_cruise"])
p("C14","Samplers give n admissible points for every random outcome",
 "A sampler asked for n points gives exactly n points inside the area covered by the given points, for every outcome of the random number generator (repetitions and extreme values included) and for every arrangement of the given points it accepts, in a bounded number of steps, and without changing them.",
 ["inputs","schedules"],"all point sets and all outcomes of the random numbers drawn",
 "The tests draw a few points with one random state.",
 ["hrosailing/processing/sampler.py"],[("rejection loops and circle construction","hrosailing/processing/sampler.py")],(),["Sampler.sample"])
p("C15","Diagram edits change exactly what was asked for",
 "After any sequence of changes (changing table entries, adding points, symmetrizing, saving and loading, crashes between them) a diagram contains exactly what the accepted changes put there; every entry not addressed keeps its value, a rejected change changes nothing, and lookups of recorded wind speeds and angles return the recorded boat speed.",
 ["histories","inputs","crash_points"],"all sequences of accepted and rejected edits, lookups, saves, loads and restarts",
 "The tests apply single edits to one small table or cloud.",
 [PD+"_polardiagramtable.py",PD+"_polardiagrampointcloud.py"],[("change_entries, add_points, symmetrize, __getitem__",PD)],(),["change_entries","add_points","boat_speeds","points"])
p("C16","Data tables keep every value in its row and column",
 "After any sequence of operations on a data table (appending records and tables, updating, renaming, deleting rows or columns, filtering, filling, slicing, reordering, restricting types), each value stays with its record and its column, all columns have the reported number of rows whenever the table is filled, and the types reported are those of the values. An operation that is rejected leaves the table unchanged. Weighted points made of such tables (or of dictionaries or arrays) keep every weight with its record.",
 ["histories","inputs"],"all sequences of data table operations, rejected ones included",
 "There is no test of the data table.",
 ["hrosailing/core/data.py"],[("Data","hrosailing/core/data.py")],(),["Data"])
p("C17","Reused processing components behave like fresh ones",
 "Every processing component (handler, imputator, smoother, weigher, filter, expander, influence model, sampler, neighbourhood, regressor, interpolator, injector, extension, quality assurance, fuzzy variable) gives, when it has been used before on any other data, successfully or not, the same result and the same statistics as a newly made one with the same parameters.",
 ["histories","fault_sequences"],"all components, parameters and histories of earlier uses, failing ones included",
 "The tests call each component once per instance.",
 ["hrosailing/processing/","hrosailing/models/influencemodel.py"],[("components hold parameters only; statistics are reset per use","hrosailing/core/statistics.py")])
p("C18","Completing records keeps every measured value",
 "Completing incomplete records never changes, moves or invents a measured value: gaps are filled only as configured, from the nearest measured records near enough in time, time stamps between measured ones are filled in linearly, a record that cannot be completed is dropped as a whole, and the statistics count exactly the removed rows and columns. This holds for every pattern of lost values, including first, last and consecutive records and columns lost completely.",
 ["fault_sequences","inputs"],"all record sequences and loss patterns, for every imputator",
 "The tests use one or two loss patterns.",
 ["hrosailing/processing/imputator.py"],[("FillLocalImputator, RemoveOnlyImputator","hrosailing/processing/imputator.py")],(),["Imputator.impute"])
p("C19","Every record passes every pipeline stage exactly once",
 "In a pipeline run every record delivered by the data sources passes the enabled stages in their documented order exactly once, rows are removed only by the components whose task it is, disabled stages are skipped, and the polar diagram is built from the training records only; test records influence nothing but the test statistics. If a component fails, the run fails with its error and no partial result is returned.",
 ["configurations","fault_sequences","inputs"],"all combinations of enabled stages, sources and component failures",
 "No test runs a pipeline even once.",
 ["hrosailing/pipeline/pipeline.py","hrosailing/pipeline/extensions.py"],[("PolarPipeline.__call__","hrosailing/pipeline/pipeline.py")],(),["PolarPipeline.__call__"])
p("C20","Smoothed series follow the measured ones",
 "Smoothing a measured log keeps every record, its time stamp and all columns that are no measurement series, whatever was lost, repeated or stuck on the way. Each series is smoothed on its own: halfway in time between two different measured values it is their mean, within a constant part it holds the measured value at least the configured timespan (or, in shorter parts, half of the part) away from the next change, and in between it is linear in time, so it never leaves the range of the two values; a log that is not in chronological order is refused and left unchanged.",
 ["inputs","fault_sequences","histories"],"all series, time stamps, losses, stuck instruments, clock jumps and timespans, and all histories of use",
 "The tests smooth one regular series.",
 ["hrosailing/processing/smoother.py"],[("AffineSmoother, LazySmoother","hrosailing/processing/smoother.py")],(),["Smoother.smooth"])
p("C21","Plots show their diagram, whatever was drawn before",
 "Every plot of a polar diagram adds exactly one line or point set per requested wind speed, with the wind angles and boat speeds of that slice in the order of the angles (separately for every sail, or as their convex hull closed around the boat), in the colors, with the legend and on the axes asked for; color gradients and three-dimensional plots show exactly the diagram's points. This is so whatever was drawn on these or other axes, cleared or edited before, and after plots that failed or were interrupted. Plotting never changes a diagram, the arguments, or anything drawn earlier, and the error of a failing diagram reaches the caller before anything is drawn.",
 ["histories","fault_sequences","inputs"],"all diagrams, plot settings and histories of drawing, editing and failing on shared axes",
 "The tests draw one diagram on fresh axes and mostly look at internal helpers.",
 ["hrosailing/plotting/projections.py","hrosailing/polardiagram/_basepolardiagram.py"],[("HROPolar, HROFlat, HROColorGradient, Axes3D","hrosailing/plotting/projections.py")],(),["HROPolar.plot"])
p("C22","Results do not depend on the process",
 "Every operation of the library gives for the same inputs the same result (the same values in the same order of columns, rows, sails and keys) or the same kind of error in every process: whatever its hash seed, locale and encoding (of the system or chosen by the application), interpreter optimisation, time zone and its clock changes, system date, working directory, file mode mask, decimal, numpy and pandas options, garbage collection, warning filters or thread are, and whatever was computed in it before. Files written in one environment load to the same objects in every other one.",
 ["configurations","histories","inputs"],"all operations and inputs in all process environments and after all histories",
 "The tests run in one process environment.",
 ["hrosailing/"],[("files are opened as UTF-8; times are compared as datetimes; no caches across calls","hrosailing/"),("_TIME_FORMAT","hrosailing/models/weather_model.py")])
p("C23","The order in which measurements arrive does not matter",
 "Weights, filter decisions, corrected winds and the polar diagram made of measured records do not depend on the order in which records, logs or columns arrive: delivered in another order, every record keeps its weight, its decision and its correction, and diagrams made of the same points answer every query the same (up to rounding; completing and smoothing, which follow the order of a log, excepted). Components that look at the neighbours of a record in time or wind consider exactly the records within the configured range, wherever these are in the log. A weigher composed of weighers, numbers and arrays by arithmetic gives every record the same combination of the weights that these give it on their own.",
 ["schedules","inputs","configurations"],"all logs, all orders of arrival of their records, files and columns, and all configurations of weighers, filters, influence models and diagrams",
 "The tests use one order of records and columns.",
 ["hrosailing/processing/weigher.py","hrosailing/processing/filter.py","hrosailing/models/influencemodel.py","hrosailing/processing/interpolator.py","hrosailing/processing/neighbourhood.py","hrosailing/pipeline/",PD],
 [("_set_points_from_data, FluctuationWeigher, operators of Weigher","hrosailing/processing/weigher.py"),("QuantileFilter, BoundFilter","hrosailing/processing/filter.py"),("PolarDiagramPointcloud.__call__, PolarDiagramTable.__init__",PD)],(),["Weigher.weigh","Filter.filter"])
NA="pure function of its arguments: no schedule, clock, randomness, I/O, crash or history for a simulator to decide"
p("N01","Wind conversion inverts the wind triangle",
 "Converting apparent wind to true wind and back returns the original wind for all boat speeds, wind speeds and angles.",["inputs"],"all wind measurements","Tests check a few triangles.",["hrosailing/core/computing.py"],[("convert_apparent_wind_to_true","hrosailing/core/computing.py")])
p("N02","Globe models agree with spherical geometry",
 "Projection and its inverse, distances, shortest paths and residuals of the globe models agree with spherical (or planar) geometry for all coordinates.",["inputs"],"all coordinates","Tests check a few coordinates.",["hrosailing/models/globe_model.py"],[("SphericalGlobe, FlatMercatorProjection","hrosailing/models/globe_model.py")])
p("N03","Interpolated boat speeds stay within their neighbours",
 "Interpolated boat speeds reproduce recorded points and stay within the range of the considered points.",["inputs"],"all point sets and query points","Tests check a few point sets.",["hrosailing/processing/interpolator.py"],[("IDWInterpolator, ArithmeticMeanInterpolator","hrosailing/processing/interpolator.py")])
p("N04","Suggested courses are optimal",
 "The tack or jibe suggested for a course attains the best velocity made good on the convex hull of the polar diagram slice.",["inputs"],"all diagrams, wind speeds and courses","Tests check one diagram.",["hrosailing/cruising/basics.py"],[("convex_direction","hrosailing/cruising/basics.py")])
p("N05","Fuzzy rules and weigher formulas compute their definition",
 "Fuzzy terms, weigher formulas and filters compute the documented formula for every input.",["inputs"],"all inputs","Tests check a few inputs.",["hrosailing/processing/weigher.py","hrosailing/processing/filter.py"],[("FuzzyWeigher","hrosailing/processing/weigher.py")])
p("N06","Fitted curves minimise the weighted error",
 "Regressors return parameters that minimise the weighted squared error of the model function over the given points.",["inputs"],"all point sets and model functions","Tests check exact fits.",["hrosailing/processing/regressor.py"],[("ODRegressor, LeastSquareRegressor","hrosailing/processing/regressor.py")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
