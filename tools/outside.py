NA = {}
OUTSIDE = {
 "C01": "subscribers with the same callback and id; changes made without the notifier's lock.",
 "C02": "texts longer than the listed ones; 64 bit floats beyond exact reals.",
 "C03": "two live subscriptions with the same callback and id; a client that reuses the id of a live request.",
 "C05": "histories of more than three operations after the start state (each starts from every reachable state).",
 "C06": "parts that never stop (the framework's ten second limit).",
 "C07": "the config attributes of the manager's own parts do not count for `modified`; crashes of the machine (fsync); git (the sync command).",
 "C08": "the writeable flag of an exported attribute; saving one source that is exported twice.",
 "C09": "generators whose own size arithmetic is wrong (they are stand-ins; C23, C24 use real ones).",
 "C10": "more than two seeks.",
 "C11": "rules that need more than the ten rounds that the code allows.",
 "C12": "frame transfer mode; an Andor with an exposure and no duration gets a duration without the extra 0.4% + 1 ms; a duration too short for the minimum exposure is accepted with the minimum, by design.",
 "C13": "the numbers of the velocity profiles themselves (library).",
 "C14": "the velocity profiles themselves (library); the run-up distance of slower axes.",
 "C16": "a single point in a reversed row of an alternating generator (scanpointgenerator's get_points turns it round); half periods below 10 ticks; the tables' behaviour in the real FPGA.",
 "C17": "fields that cross a word boundary (refused by the code).",
 "C18": "LUT icons and FUNC.RAW; ARM and DISARM; a layout that the box clears; a box that answers out of order.",
 "C19": "REST; addresses and netmasks are picked by the solver from lists.",
 "C20": "synchronising a proxy after the connection came back; health of the proxy meanwhile; other transports.",
 "C21": "p4p's compiled Type and Value in the symbolic runs (modelled; the real ones run in every replay); a live change of the elements of a table; synchronising proxies after the client comms was disabled and reset; members of an Enum given to a proxy (its choices are texts).",
 "C22": "values of a method's last call read back as plain data (the log does not describe them); whole blocks (C20).",
 "C23": "frames in flight between plugins during a seek; scans of several rows or breakpoints with Eiger and TetrAMM drivers (the code says that they are not done yet); a path prefix with a trailing slash.",
 "C24": "a snaked fastest axis with several frames per step (refused by the library).",
 "C25": "cycles of parent and child blocks; adding while stopping.",
 "C26": "pausing (not implemented by the code); a detector that never gives a first frame (waited for without a limit); secondary datasets other than the sum; the unique ids that an Xspress3 dataset refers to; more than 8 writers.",
 "C27": "choices of a record that change while it is connected; limits and units of a PV that was not there at the last reset; precision of real EPICS types; waveforms that differ in length (the table waits until they agree).",
 "C28": "whether the pulses of the hardware are what the attributes say; more than three PULSE blocks; two datasets given the same name; kinematics in several coordinate systems with one part; what Savu makes of the files.",
 "C29": "names of sets that are not names of directories; an empty output directory; times in the report; which kind of error a scan block of another process had (only its text arrives).",
}
