"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    d = dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(
            files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe),
            hook_needed=None,
        ),
    )
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


CORE = "malcolm/core/"
prop(
    "C01", "A subscriber's view always equals the block",
    "Applying, in order, the updates a subscription has received gives exactly the data that the block holds at its path at the end of the change that was last notified: no change is lost, duplicated, reordered or leaked from elsewhere. A change made in several steps is seen as one update, a subscription to a path that appears or disappears later follows it, and after unsubscribing nothing more is delivered.",
    ["inputs", "histories"],
    "every sequence of sets, deletes and batched changes on a block tree, for full and delta subscriptions at every path, and every point at which a subscriber comes or goes",
    "the tests check a few hand written change lists; the property is over all sequences of changes and all subscription paths",
    [CORE + "notifier.py", CORE + "models.py", CORE + "controller.py"],
    [("Notifier.changes_squashed / NotifierNode", CORE + "notifier.py"), ("Model.set_notifier_path, apply_change, set_endpoint_data", CORE + "models.py")],
    ["Update and Delta responses given to the subscriber's callback"],
)
prop(
    "C02", "An attribute only ever holds valid values",
    "Whatever value is written to an attribute or passed to a method, it is either rejected leaving the old value in place or stored in a form that satisfies the attribute's type: numbers are of the declared numeric type and equal the value written where that type can represent it, choices are one of the allowed choices, arrays and table columns have elements of the declared type, and a table has columns of equal length. An accepted value validates to itself again, and serialising an attribute's description and reading it back gives an equivalent one.",
    ["inputs"],
    "every value of every attribute type: number, choice, boolean, string, arrays, tables, and every set of method arguments",
    "tests sample one or two values per type; validation must hold for all values and types",
    [CORE + "models.py"],
    [("VMeta.validate and subclasses", CORE + "models.py"), ("MethodMeta.validate / MapMeta", CORE + "models.py"), ("AttributeModel.set_value", CORE + "models.py")],
)
prop(
    "C03", "Every request gets exactly one final answer",
    "Every Get, Put and Post sent to a block is answered by exactly one Return or Error carrying the request's id, whatever the code behind it does; a Subscribe gives updates or deltas and, unless it fails, only ends with the one Return caused by its Unsubscribe. A failing or unserialisable request never prevents later requests from being answered, and a Put or Post to something that is not writeable is answered with an Error and changes nothing.",
    ["inputs", "schedules", "fault_sequences"],
    "every mix of concurrent requests with well and badly formed paths and arguments, with user code that returns, raises or blocks",
    "tests check single requests in turn; the guarantee is over all mixes, orders and failures",
    [CORE + "controller.py", CORE + "request.py", CORE + "response.py", CORE + "notifier.py", CORE + "loggable.py"],
    [("Controller.handle_request", CORE + "controller.py"), ("Request.return_response/error_response", CORE + "request.py")],
)
prop(
    "C04", "Waiting for futures ends exactly when it should",
    "Waiting for one or more replies returns only when all of them have arrived, gives each caller its own reply, raises the first error reply, raises a timeout no earlier than the given time and raises an abort as soon as the context is stopped. Replies may arrive in any order, before or during the wait, and subscription callbacks run in the order in which their updates arrived; a wait for a value returns only after that value was seen, and fails at once if a value declared bad is seen first.",
    ["schedules", "histories"],
    "every order in which replies, updates, errors, stops and timeouts can arrive relative to the wait",
    "tests produce one order each; the property is about all orders",
    [CORE + "context.py", CORE + "future.py"],
    [("Context.wait_all_futures, _service_futures", CORE + "context.py"), ("when_matches / sleep / stop / ignore_stops_before_now", CORE + "context.py")],
)
prop(
    "C05", "Blocks only make legal state changes",
    "A block's state only ever changes along the documented transitions, a method can only be run in the states where it is declared to be available, and writing an attribute or running a method in any other state is refused. If any part of an operation fails the block ends in the fault state, except that abort, disable and reset can always be used where they are declared available; the health and error shown always match whether the block is in fault.",
    ["histories", "schedules", "fault_sequences"],
    "every sequence of operations on stateful, manager and runnable blocks, each step succeeding, failing or being interrupted by another operation",
    "the tests walk a few sequences; the state machine has to be respected for all sequences and failures",
    ["malcolm/modules/builtin/controllers/statefulcontroller.py", "malcolm/modules/builtin/controllers/managercontroller.py", "malcolm/modules/scanning/controllers/runnablecontroller.py", "malcolm/modules/builtin/util.py", "malcolm/modules/scanning/util.py", CORE + "stateset.py"],
    [("StatefulController.try_stateful_function / transition", "malcolm/modules/builtin/controllers/statefulcontroller.py"), ("StateSet.set_allowed", CORE + "stateset.py")],
)
prop(
    "C06", "Parts are driven in step, and stopped together",
    "When an operation reaches its next phase every part that takes part in the phase is called exactly once with exactly the arguments it asked for, and the operation continues only when all of them have returned, with the result of each attributed to the part that gave it. If one part fails then the others are stopped and the failure is what the caller sees; if the operation is aborted then every part still running is stopped and has finished before the abort returns.",
    ["schedules", "fault_sequences", "configurations"],
    "every number of parts, every order in which they finish, fail or hang, and every point at which the operation is aborted",
    "tests use one order of completion; the guarantee is over all orders and failures",
    [CORE + "hook.py", CORE + "controller.py", CORE + "part.py"],
    [("start_hooks / wait_hooks", CORE + "hook.py"), ("Controller.run_hooks", CORE + "controller.py")],
)
prop(
    "C07", "Saved designs restore what was saved",
    "After saving a design and then changing anything, loading that design puts every saved setting of every child back to the saved value and nothing else, after which the block reports itself as unmodified. While a design is loaded the block reports itself as modified exactly when some saved setting differs from the design, and a failed or partial save never replaces the design that was there before.",
    ["inputs", "histories", "crash_points"],
    "every set of child attribute values, every sequence of save, put and load, and a failure at any point of saving",
    "tests save and load one design; the property is over all values and histories",
    ["malcolm/modules/builtin/controllers/managercontroller.py", "malcolm/modules/builtin/parts/childpart.py"],
    [("ManagerController._do_save/_do_load/check_modified", "malcolm/modules/builtin/controllers/managercontroller.py"), ("ChildPart.on_save/on_load/send_modified_info_if_not_equal", "malcolm/modules/builtin/parts/childpart.py")],
)
prop(
    "C08", "Exports and port links show what the children have",
    "The fields a manager block exports are exactly those in its export table: each shows the child field it names, under the given name, follows it as it changes, is replaced, removed or hidden, and passes puts and calls on to it once and its answer or error back. A table that could not be shown (a name used twice, or already used by the block) is refused and changes nothing. The layout is what was put for each child listed, a child is visible at first if it is meant to be or is connected to another, and hiding a child sets its inputs, and the inputs of others that were connected to its outputs, to their disconnected values and no others.",
    ["inputs", "histories", "configurations"],
    "every export table, every layout change and every order of child field changes",
    "tests use one layout; the property is over all tables and orders",
    ["malcolm/modules/builtin/controllers/managercontroller.py", "malcolm/modules/builtin/parts/childpart.py", "malcolm/modules/builtin/util.py"],
    [("ManagerController._update_block_endpoints / set_exports / set_layout", "malcolm/modules/builtin/controllers/managercontroller.py"), ("ChildPart.sever_inports / get_flowgraph_ports", "malcolm/modules/builtin/parts/childpart.py")],
)
RUN = "malcolm/modules/scanning/controllers/runnablecontroller.py"
prop(
    "C09", "A scan does every step exactly once, in order",
    "For every scan the parts are told to do consecutive ranges of steps that start at zero, never overlap, leave no gap and end at the number of steps configured, whatever breakpoints, pauses or inner repetition are in use. Each range is one segment: it ends at the next breakpoint if there is one, and never beyond the end of the scan.",
    ["inputs", "histories"],
    "every generator size, every breakpoint list and every point at which the run is paused and resumed",
    "tests run a handful of fixed scans; the arithmetic has to be right for all sizes and breakpoints",
    [RUN, "malcolm/modules/scanning/infos.py"],
    [("RunnableController.get_steps_per_run, do_run, _do_run", RUN)],
)
prop(
    "C10", "Pause, seek, resume and abort keep the step count right",
    "After a pause or a seek to any valid step, the completed step count shown is the one requested, and resuming does exactly the steps from there to the end, each once. Progress reported while running never exceeds the steps that have been done by the slowest part and never decreases while running; abort and reset always leave the block able to be configured again, and nothing of the old scan is carried over.",
    ["inputs", "histories", "schedules"],
    "every position at which a pause or seek lands relative to breakpoints and segments, every interleaving of progress reports",
    "tests pause at one fixed step",
    [RUN],
    [("RunnableController.pause/do_pause/update_completed_steps/resume/abort", RUN)],
)
prop(
    "C11", "Validation yields parameters that every part accepts",
    "If validate returns a set of parameters then every part accepts exactly those parameters unchanged, and configuring with them does not alter them again. Values that the user gave are only changed by a part that asked to change them, each part is passed only the parameters it declared, and parameters that cannot be satisfied are refused with an error instead of looping or being silently ignored. In a scan with detectors every one that takes part ends with an exposure of at least its minimum whose frames, with their readout, fit in the step; exposures, frames and durations that were given are kept or refused, free ones are filled in, and the rows of detectors that don't take part are left alone.",
    ["inputs", "configurations"],
    "every set of parts that ask for changes to exposure, duration or other parameters, and every set of given values",
    "tests have one tweaking part; the fix point must be reached for all combinations",
    [RUN, "malcolm/modules/scanning/util.py", "malcolm/modules/scanning/hooks.py", "malcolm/modules/scanning/parts/exposuredeadtimepart.py", "malcolm/modules/scanning/parts/detectorchildpart.py"],
    [("RunnableController.validate / _update_configure_args", RUN), ("resolve_generator_tweaks", "malcolm/modules/scanning/util.py")],
)
prop(
    "C12", "Exposure and dead time always fit in the frame",
    "For every readout time, clock accuracy, minimum exposure, frame duration and requested exposure, an accepted or calculated exposure is at least the minimum, and exposure plus readout plus clock error fits in the frame whenever the minimum exposure does. A requested exposure that fits is kept as it is, one that does not is refused, and a calculated frame duration is just long enough for the exposure and all the frames of a step. Each time a detector is armed in a scan, at first, after a breakpoint or outer step or after a seek, it has the exposure that was validated and the same period, which leaves time to read out and fits the duration; a duration below the detector's minimum period is refused.",
    ["inputs"],
    "all real valued timings and all numbers of frames per step",
    "tests check three timings; rounding and boundary cases are over a continuous domain",
    ["malcolm/modules/scanning/parts/exposuredeadtimepart.py", "malcolm/modules/scanning/infos.py", "malcolm/modules/ADCore/parts/detectordriverpart.py", "malcolm/modules/scanning/parts/detectorchildpart.py"],
    [("ExposureDeadtimePart.on_validate", "malcolm/modules/scanning/parts/exposuredeadtimepart.py"), ("ExposureDeadtimeInfo.calculate_exposure / calculate_minimum_duration", "malcolm/modules/scanning/infos.py")],
)
PM = "malcolm/modules/pmac/"
prop(
    "C13", "The trajectory goes through every scan point on time",
    "The trajectory sent to the motion controller visits every point of the scan in order: for every point the axes are at its lower bound, position and upper bound at times that differ by half the point's duration each, with turnarounds of at least the required time in between and no row with zero or negative time. The scan step shown with each trajectory row is the number of points completed there, and splitting the trajectory into batches never drops, repeats or alters a row. The beam selector visits both of its positions in every step it was asked for, starting from that step, and holds each for its detector's exposure.",
    ["inputs", "histories"],
    "every number of points, duration, bound, turnaround and batch boundary",
    "tests check a few recorded trajectories; the property is over all generators and buffer boundaries",
    [PM + "parts/pmacchildpart.py", PM + "util.py", PM + "parts/pmactrajectorypart.py", PM + "parts/beamselectorpart.py"],
    [("PmacChildPart.calculate_generator_profile / add_generator_point_pair", PM + "parts/pmacchildpart.py"), ("PmacTrajectoryPart.write_profile", PM + "parts/pmactrajectorypart.py")],
)
prop(
    "C14", "Motion profiles respect velocity and acceleration limits",
    "Between two points that are not joined, the profile asked for each axis leaves with the point's exit velocity, arrives with the next point's entry velocity, covers exactly the distance between them and is made with that axis's own maximum velocity, acceleration, settling time and the minimum interval; all axes take the same total time, the longest that any of them needs and at least the minimum turnaround, and they are quantised together or not at all. A point that needs more than an axis's maximum velocity is refused, never clipped. The scan starts from where each axis can reach its entry velocity, and tails off over the distance it needs to stop. When the scan gives no duration, the one chosen for it is long enough for every axis to cover the first step at its maximum velocity, in either direction; durations are aligned so that half a point is a whole number of servo ticks, and an aligned duration stays as it is.",
    ["inputs"],
    "all distances, velocities, turnaround times and durations of points",
    "tests check fixed profiles",
    [PM + "util.py", PM + "infos.py", PM + "parts/pmacchildpart.py"],
    [("profile_between_points / point_velocities", PM + "util.py"), ("MotorInfo.make_velocity_profile / ramp_distance", PM + "infos.py"), ("PmacChildPart.on_validate / move_to_start / add_tail_off", PM + "parts/pmacchildpart.py")],
)
prop(
    "C15", "Each axis's points go to the right motor, in motor units",
    "For every assignment of motors to coordinate systems, each scanned axis's start and trajectory positions are sent to exactly the coordinate system axis that its motor is assigned to, and no other axis is moved or used. A scan with axes in different coordinate systems, two motors on one coordinate system axis, an axis without a motor or whose motor is not on a plain axis, or a run-up that starts outside the enabled soft limits is refused before anything moves, and one whose tail-off ends outside of them is refused too. Coordinated moves put each demand to its axis while moves are deferred; a trajectory's arrays all have its number of points, and its execution waits for all the points that were written. Positions in counts are the nearest to (position - offset) / resolution. The coordinate system axis shown for a motor is the one its records last told.",
    ["inputs", "configurations", "histories"],
    "every mapping of axes to motors, coordinate systems and limits",
    "tests use a couple of mappings",
    [PM + "util.py", PM + "infos.py", PM + "parts/pmactrajectorypart.py", PM + "parts/cspart.py", PM + "parts/pmacchildpart.py", PM + "parts/rawmotorsinkportspart.py", PM + "parts/compoundmotorsinkportspart.py"],
    [("cs_axis_mapping / cs_port_with_motors_in / get_motion_axes", PM + "util.py"), ("MotorInfo.in_cts / check_position_within_soft_limits", PM + "infos.py"), ("PmacTrajectoryPart.write_profile", PM + "parts/pmactrajectorypart.py"), ("CSPart.move", PM + "parts/cspart.py")],
)
PB = "malcolm/modules/ADPandABlocks/"
prop(
    "C16", "PandA sequencer tables play exactly the scan",
    "The sequencer tables written for a scan produce one live pulse of the right duration per scan point, in order, waiting for the row gate or position at the start of every row and staying dead in between, from any start step and for any number of points. Tables never exceed the hardware's row and repeat limits, and splitting them over two alternating sequencers neither loses, repeats nor changes a pulse: only the sequencer that is not running is ever reloaded. Started exactly once for every run, whatever was scanned before and wherever the scan was paused and moved to, and stopped when the scan is paused, aborted or reset; positions compared are those of the scan in the PandA's scale and offset, and wiring that cannot make the triggers is refused when the scan is armed.",
    ["inputs", "histories"],
    "every number of points, repeat count, duration, row structure, table split and switching order",
    "tests check a few recorded tables; the property is over all scans and boundaries",
    [PB + "doublebuffer.py", PB + "parts/pandaseqtriggerpart.py", PB + "util.py"],
    [("SequencerRows.add_seq_entry/split", PB + "doublebuffer.py"), ("DoubleBuffer", PB + "doublebuffer.py"), ("SeqTriggers.get_rows", PB + "parts/pandaseqtriggerpart.py")],
)
prop(
    "C17", "PandA tables pack and unpack without loss",
    "Any table of in-range column values written to a PandA table field and read back gives the same values, whatever the widths and positions of the bit fields, signed or unsigned, including fields that end on a word boundary. Each value only affects its own bits, and every row uses exactly the number of words the hardware declares.",
    ["inputs", "configurations"],
    "every column value and every layout of bit fields",
    "tests check one table layout with a few values",
    ["malcolm/modules/pandablocks/parts/pandatablepart.py"],
    [("PandATablePart.list_from_table / table_from_list", "malcolm/modules/pandablocks/parts/pandatablepart.py")],
)
prop(
    "C18", "Commands to the PandA get their own replies",
    "Whatever commands are sent concurrently and however the bytes of the replies are split into packets, every command is completed with exactly its own reply, in order, or with an error if the box reports one, and table and multi-line replies are never truncated or merged. Once polled, every attribute of a PandA's blocks shows what the box has, also when changes arrive while others are being put, and a bit that changed and changed back is seen to change. A put sends exactly the value put to exactly the field named; one that the box refuses, or that would be more than one command, is an error and leaves what is shown. Losing the box is a fault, with an error for every command under way; reset connects and polls it again.",
    ["inputs", "schedules", "fault_sequences"],
    "every split of the reply stream, every order of commands, every mix of reply kinds",
    "tests feed one packet per reply",
    ["malcolm/modules/pandablocks/" + f for f in ("pandablocksclient.py", "controllers/pandamanagercontroller.py", "controllers/pandablockcontroller.py", "parts/pandabussespart.py", "parts/pandalabelpart.py")],
    [("PandABlocksClient._recv_loop / _send_loop / _get_lines / _respond", "malcolm/modules/pandablocks/pandablocksclient.py")],
)
WEB = "malcolm/modules/web/"
prop(
    "C19", "Web clients only get answers to their own requests",
    "With several web clients using overlapping request ids, every response goes once to the client that made the request, with the id that client used, and every update to those subscribed, in order, however slow a client is; when a client disconnects its subscriptions end at their next update and no other client's do. An id can be used for another subscription once its subscription ended or failed. When the web socket server is restricted, puts and posts are refused exactly from addresses outside the networks of its interfaces that are up. A malformed message, or an answer that cannot be sent, gives an error with its id and does not disturb other requests.",
    ["inputs", "histories", "schedules"],
    "every set of clients, ids, addresses and netmasks, and every order of messages and disconnections",
    "tests use one client",
    [WEB + "parts/websocketserverpart.py", WEB + "controllers/httpservercomms.py", WEB + "util.py"],
    [("MalcWebSocketHandler.on_message / on_response", WEB + "parts/websocketserverpart.py"), ("get_ip_validator, WebsocketServerPart.on_report_handlers", WEB + "parts/websocketserverpart.py")],
)
prop(
    "C20", "A remote block mirrors the original",
    "A proxy of a block in another process holds exactly the data the other process has sent, after any sequence of updates and deltas, whichever part of the block they change, and puts and posts through it reach the other side once with the values given and return its answer or its error to the right caller. Changes made as one are seen as one update of the proxy. When the connection is lost every request that is under way, or made until it is back, ends with an error and the client shows a fault until it is reset, which connects again; disabling it disconnects.",
    ["inputs", "histories", "fault_sequences"],
    "every sequence of deltas, every mix of concurrent requests and a disconnection at any point",
    "tests send a few fixed deltas",
    [WEB + "controllers/websocketclientcomms.py", "malcolm/modules/builtin/controllers/proxycontroller.py", "malcolm/modules/builtin/controllers/clientcomms.py"],
    [("WebsocketClientComms.on_message/_handle_change/send_put/send_post", WEB + "controllers/websocketclientcomms.py"), ("ProxyController", "malcolm/modules/builtin/controllers/proxycontroller.py")],
)
prop(
    "C21", "A block over PVAccess is the block",
    "A proxy of a block that lives in another process, reached over PVAccess, shows the same fields in the same order with equal values and metadata of the same type, after every history of changes: values and alarms of every attribute type, tables, labels, choices, limits, whether something can be written, fields that are added, removed or replaced by ones of another type. A PVAccess client that watches a block or one field of it is told of every change, with exactly what changed marked as changed, and its channel is opened again when the structure changes. A put or a method call, through a proxy or by another client, delivers exactly the values that were sent, the result (or the error) comes back, and a put to anything but one value is refused. Clients can come and go, and stopping and starting the server loses nothing: who connects afterwards has what is there, and meanwhile the proxy shows that it is disconnected.",
    ["inputs", "histories"],
    "every attribute type and value, every subset of changed fields",
    "tests convert a handful of values",
    ["malcolm/modules/pva/controllers/pvaconvert.py", "malcolm/modules/pva/controllers/pvaservercomms.py", "malcolm/modules/pva/controllers/pvaclientcomms.py"],
    [("convert_to_type_tuple_value / convert_value_to_dict / update_path", "malcolm/modules/pva/controllers/pvaconvert.py")],
)
prop(
    "C22", "Serialised data reads back the same",
    "Every serialisable object turned into a dictionary or JSON and read back gives an equal object of the same type, with fields in the same order and nothing lost. Malformed input is rejected with an error rather than giving a wrong object, and the tags that describe a port, widget or config group can be parsed back to what was put in.",
    ["inputs"],
    "all field values, names and nesting",
    "tests round trip a few objects",
    [CORE + f for f in ("models.py", "request.py", "response.py", "alarm.py", "timestamp.py", "table.py", "tags.py")],
    [("Meta, AttributeModel, MethodModel, BlockModel: to_dict and from_dict", CORE + "models.py"), ("requests and responses", CORE + "request.py"), ("Port, Widget and config_tag", CORE + "tags.py")],
)
prop(
    "C23", "Detector files have the shape of the scan",
    "For every scan the data file is set up with the scan's dimensions in order, and every frame ends up at the place of the scan point it was taken at and nowhere else, however the scan is split by breakpoints or outer dimensions, wherever it is paused and sought to, and whether the detector is triggered or not. A scan whose detector or writer loses a frame fails; it never says that it is done. Every dataset that is shown is in the file it is shown in, with the type, rank, attribute, positions and units it should have, and the detector is told to write and look for files where they are, also when it runs on Windows and sees directories under a drive or network prefix (a directory that is not under the prefix is refused); files made for the set up are removed at reset.",
    ["inputs", "histories"],
    "every generator shape, start step and batch boundary",
    "tests use two fixed generators",
    ["malcolm/modules/ADCore/parts/hdfwriterpart.py", "malcolm/modules/ADCore/parts/positionlabellerpart.py", "malcolm/modules/ADCore/parts/detectordriverpart.py", "malcolm/modules/ADCore/parts/statspluginpart.py", "malcolm/modules/ADCore/infos.py", "malcolm/modules/scanning/parts/datasettablepart.py"],
    [("HDFWriterPart.on_configure / on_seek / on_run, make_layout_xml, create_dataset_infos, set_dimensions", "malcolm/modules/ADCore/parts/hdfwriterpart.py"), ("PositionLabellerPart", "malcolm/modules/ADCore/parts/positionlabellerpart.py"), ("DetectorDriverPart.setup_detector / on_seek / on_post_run_armed", "malcolm/modules/ADCore/parts/detectordriverpart.py"), ("FilePathTranslatorInfo.translate_filepath", "malcolm/modules/ADCore/infos.py")],
)
prop(
    "C24", "Every detector is asked for the frames of every step",
    "In a scan with several detectors, each enabled detector is configured once with the points of the scan, its own number of frames for each added to the fastest dimension, sharing the step's duration, and with the directory and names it should write to; whenever the scan is armed, sought or resumed, with breakpoints or outer dimensions, each detector is set up for the frames of exactly the same steps and takes all of them in order, and a step is shown as done only when every detector has. A detector that is disabled or not in the table is left alone. The detectors table that validation returns has a row for each detector, keeps exposures and frames that were asked for, fills in those that were not with ones that fit the step (as long and as many as fit), refuses more frames than can be triggered, and a scan without a duration gets the shortest one in which the frames of every detector fit, with its points unchanged.",
    ["inputs", "configurations"],
    "every detectors table, frame count and duration",
    "tests use two tables",
    ["malcolm/modules/scanning/parts/detectorchildpart.py", "malcolm/modules/scanning/util.py", "malcolm/modules/scanning/parts/datasettablepart.py", "malcolm/modules/scanning/parts/exposuredeadtimepart.py", "malcolm/modules/scanning/controllers/runnablecontroller.py"],
    [("DetectorChildPart.on_validate / on_configure / on_seek / on_run / update_completed_steps", "malcolm/modules/scanning/parts/detectorchildpart.py"), ("RunnableController.validate", "malcolm/modules/scanning/controllers/runnablecontroller.py"), ("resolve_generator_tweaks, DetectorTable", "malcolm/modules/scanning/util.py")],
)
prop(
    "C25", "The process publishes exactly the live blocks",
    "Every block added to a process is found under its own unique name and started once, whether it was added before the start, after it, by another block while that starts or by another thread; a list of blocks with a name that is in use is refused as a whole. Servers are told exactly the blocks that are meant to be published, each once: a block that is not to be published never is, even if it fails to start or is slow, and all others are when they have started. Stopping the process halts every block exactly once and waits for everything it spawned, after which it can be started again; a block that fails to start or halt never prevents the others from starting, being published or stopping.",
    ["histories", "configurations", "fault_sequences"],
    "every set of blocks, publish settings, nested additions and failures",
    "tests start one or two controllers",
    [CORE + "process.py", CORE + "hook.py", CORE + "concurrency.py", "malcolm/modules/builtin/controllers/proxycontroller.py"],
    [("Process.start/stop/add_controllers/_run_hook", CORE + "process.py")],
)

prop(
    "C26", "Odin files show every frame of every writer at its point",
    "For every scan (of any number of points, not snaked; snaked scans are refused), number of data writers and block size, the file of an Odin detector has the shape of the scan and shows the frame of each point, its unique id and its sum at the point's indices, taken from the place where the data writers, which take turns of a block each, put it. It has the demand positions and units of every axis, links to the raw files under the names the writer was given, and every dataset that is listed. The writer is told to capture the frames of the whole scan; a run ends only when every frame up to its breakpoint has been captured, by every writer that takes one, a lost frame is an error, the progress shown follows the frames, and an abort stops the writer. The same holds for the Xspress3 writer's files.",
    ["inputs", "configurations", "fault_sequences"],
    "every scan size, number of writers, block size, breakpoints and lost frame",
    "tests use ten frames, four writers and blocks of one",
    ["malcolm/modules/ADOdin/parts/odinwriterpart.py", "malcolm/modules/xspress3/parts/xspresswriterpart.py"],
    [("create_vds / files_shape / add_nexus_nodes / on_run", "malcolm/modules/ADOdin/parts/odinwriterpart.py")],
)

prop(
    "C27", "Attributes of PVs follow their PV, and puts go to it",
    "An attribute of an EPICS PV (number, boolean, text, choice, array or a table of waveforms) shows the value, alarm severity and time of its readback PV, soon after every change however fast they come, is marked disconnected while the PV is, with the last value, and recovers when it is back; the choices, limits and units are those of the PV, and no change of the PV stops it being followed. While disabled nothing is monitored; a reset connects it again, and fails if the PV is not there unless that is allowed. A put to the attribute is one put to the demand PV with the same value, waits until the record is done, fails exactly if that fails, and leaves the attribute showing what the record made of it; an attribute with only a readback can't be put. A PV action puts its value once and succeeds exactly if its status gets good within its timeout, giving the message otherwise.",
    ["inputs", "histories", "fault_sequences"],
    "every value, order of changes, lost connection and outcome of a put",
    "tests give one initial value and one update",
    ["malcolm/modules/ca/util.py", "malcolm/modules/ca/parts/caactionpart.py", "malcolm/modules/ca/parts/cachoicepart.py", "malcolm/modules/ca/parts/cawaveformtablepart.py"],
    [("CABase / CAAttribute / WaveformTableAttribute", "malcolm/modules/ca/util.py"), ("CAActionPart.caput", "malcolm/modules/ca/parts/caactionpart.py")],
)

prop(
    "C28", "The PandA gates every frame and names what it captures",
    "When a scan is armed, the PULSE block of each detector that takes part is set to make one gate for every frame of a step: as long as the exposure that the detector has (or just under the frame if it shows none), within its share of the step and centred in it unless it is to have no delay; the PULSE blocks of detectors that do not take part are left alone, and exports that are missing, spread over several blocks or not in seconds are refused before anything is set. The datasets reported for a PandA are exactly those of the bits and positions that are captured and have a dataset name, with the attribute, name and type that they are captured as; putting the tables sets the captures at the box and nothing else. The files for the forward kinematics link every raw motor of the coordinate system to its captured dataset, hold the program and the variables, without scales and offsets that the PandA applies already, and contain every dataset that is shown; axes that are not captured are refused.",
    ["inputs", "histories"],
    "every duration, exposure, number of frames, wiring of the exports, and way of capturing, in any order of table rows",
    "tests use one scan of one detector and one table",
    ["malcolm/modules/ADPandABlocks/parts/pandapulsetriggerpart.py", "malcolm/modules/ADPandABlocks/parts/pandadatasetbussespart.py", "malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py", "malcolm/modules/pandablocks/parts/pandabussespart.py"],
    [("PandAPulseTriggerPart", "malcolm/modules/ADPandABlocks/parts/pandapulsetriggerpart.py"), ("PandADatasetBussesPart.on_report_status", "malcolm/modules/ADPandABlocks/parts/pandadatasetbussespart.py"), ("KinematicsSavuPart", "malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py")],
)

prop(
    "C29", "The scan runner does every scan of its file and accounts for it",
    "Running the scans of a scan file does every scan of every set, in order and as often as its repeats say, each with its own generator and in a new directory of its own, and runs none that the scan block refused. However any of them goes (fine, refused, failing or aborted by someone else) the next one is still done, and the counts of completed, successful and failed scans and the report say how every scan went. Aborting the runner at any time stops the scan under way and begins no other; the next run does them all again. A file that cannot be used is an error and puts the runner in fault, from which a good file brings it back. This holds for a scan block of this or of another process.",
    ["inputs", "histories", "fault_sequences"],
    "every number of repeats, outcome of every scan, time of an abort, and kind of bad file",
    "tests mock the scan block and check one call at a time",
    ["malcolm/modules/scanning/parts/scanrunnerpart.py"],
    [("ScanRunnerPart.run / run_scan / abort / load_file", "malcolm/modules/scanning/parts/scanrunnerpart.py")],
)

LEVEL_NOTE = (
    "Bounded symbolic execution of the code in /repo as it is on disk: every "
    "branch on a symbolic value is decided by z3, every assertion is a solver "
    "query over all values on its path, every path and every counterexample is "
    "replayed on the unmodified code. Holds within the bounds listed in the "
    "evidence file; assumes the stand-ins listed there. Floats are exact reals."
)

# properties not (or not yet) claimed
NA = {}


def main():
    built = {
        f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "checks"))
        if f.startswith("c") and f[1:3].isdigit()
    }
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = [
        dict(
            property=p["id"],
            quick_cmd=f"./run.sh {p['id']} quick",
            thorough_cmd=f"./run.sh {p['id']} thorough",
            technique="symbolic execution of the real code with z3, counterexamples replayed",
            level="model_checking",
            level_note=LEVEL_NOTE,
        )
        for p in P if p["id"] in built and p["id"] not in NA
    ]
    na = [dict(property=p["id"], reason=NA.get(p["id"], "no check built yet"))
          for p in P if p["id"] not in built or p["id"] in NA]
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks,
                       not_applicable=na), f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
