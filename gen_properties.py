import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Messages end exactly at line ends, however the bytes arrive',
 'Whatever a source (a file, standard input, a program\'s stdout or stderr) produces is carried as messages that each end with exactly one line end (LF, a preceding CR included), plus one last message for a non-empty unterminated tail, and nothing else. This depends only on the bytes, never on how they were split into reads or writes, and joining the messages gives back the source\'s bytes unchanged: NUL, non UTF-8, lone CR, empty and very long lines included.',
 ['inputs','schedules'],'every byte sequence and every way of delivering it in pieces over time',
 'One unit test feeds one 44 byte ASCII text with one read size; no test has a CR LF or a long line that straddles a read, binary data, or a tail in a second stream.',
 ['src/motion.rs','src/faucet.rs','src/launch.rs'],
 [('motion_read_buffer','src/motion.rs'),('is_split','src/motion.rs')],
 ['messages received from the output of a faucet or launch component','interleaving units at a junction'],
 [('ReadSplitControl.overflow','bytes read but not yet handed on','src/motion.rs')])

p('C02','A chain of components delivers every byte, in order, once',
 'For any straight chain of a faucet or generating program, then any number of pass-through programs, junctions, buffers and regulators in any order, then a drain, what the drain receives is byte for byte what the source produced. This holds for every content and amount of data, also when programs are slow or read and write in odd sized pieces, and pa2 then exits with status 0.',
 ['inputs','programs','schedules'],'every chain layout, every content, every relative speed of the programs',
 'The bats tests run a handful of fixed 2 to 6 component layouts with a few short lines and one timing.',
 ['src/motion.rs','src/faucet.rs','src/drain.rs','src/junction.rs','src/buffer.rs','src/regulator.rs','src/launch.rs','src/waiter.rs'],
 [('motion_worker / motion','src/motion.rs'),('closing of channels at the end of a stream','src/motion.rs'),('Waiter::start','src/waiter.rs')],
 ['bytes in the drain file','exit status of pa2 process'])

p('C03','Fan-out copies and fan-in merges whole messages, exactly once',
 'Every output connected to a junction (or connected twice from the same port) receives every message, unmodified and in the same order as every other output. A component with several inputs receives every message of each of them exactly once: messages are never torn or joined into each other, and the messages of one input stay in their order.',
 ['programs','inputs','schedules'],'every acyclic network of junctions and programs, every content and interleaving',
 'Interleaving differs between runs; the tests compare one fixed output of two small branches and one pre-filled junction.',
 ['src/junction.rs','src/motion.rs','src/waiter.rs','src/config_manip.rs'],
 [('junction_motion_worker / Junction::iteration','src/junction.rs'),('motion_worker loop over all outputs','src/motion.rs'),('removal of finished inputs','src/utils.rs')],
 ['drain files'])

p('C04','Junction priorities: lower number first, equals take turns',
 'When several inputs of a junction have messages waiting, it takes them from the inputs with the numerically lowest priority (negative allowed) and only takes from a higher number when every input with a lower number has nothing waiting or has ended (one round over inputs of equal priority, once begun, is completed). Inputs of equal priority are served in turn, one message each, so none of them is starved by another; order within an input is kept, whatever order the inputs were connected in.',
 ['configurations','histories','schedules'],'every number of inputs, every assignment of priorities, every history of arrivals and ends',
 'One unit test with three inputs and priorities 0, 0 and 1 in one arrival history. (The direction, lower first, is the one this test fixes; the README example labels suggest the opposite.)',
 ['src/junction.rs','src/utils.rs'],
 [('sorting and grouping in initialize_stdin','src/junction.rs'),('restart from the first group after each round','src/junction.rs')],
 ['order of messages on the junction output'])

p('C05','Terminate, Finish and Consume pipes behave as documented',
 'When the receiving side of a connection has closed early: with C the sender runs on to its own end, the messages for that connection are discarded, and its other connections get everything; with F the connection is closed and the sender is told (a program gets a broken pipe) as soon as none of its connections is left, other connections meanwhile get everything. With T the run is stopped: pa2 exits with status 1 and an error report. A receiver which does not close early behaves identically for T, F and C and pa2 exits 0.',
 ['programs','inputs','schedules'],'every pipe kind at every position, every moment at which the receiver may close, every number of sibling outputs',
 'When a receiver closes relative to the data in flight varies with timing; unit tests call one worker with mock channels, one bats file uses each kind once.',
 ['src/motion.rs','src/junction.rs','src/faucet.rs','src/regulator.rs','src/launch.rs','src/connectable.rs'],
 [('handling of OutputClosed per Breakable','src/motion.rs'),('unfinished_push_count','src/motion.rs'),('junction clearing its outputs on error','src/junction.rs')],
 ['what senders managed to write and whether they got a broken pipe','sibling drains','exit status'])

p('C06','stdout, stderr and exit status of a program go to their own ports',
 'What is connected to [O], [E] and [X] of a program receives exactly its stdout bytes, exactly its stderr bytes, and exactly one message with its exit status (decimal digits without a line end, or "_" when it was killed by a signal), in any combination of connected and unconnected ports. An unconnected port is discarded without ever blocking the program, and the exit message comes only once the program has really exited.',
 ['programs','inputs','configurations'],'every program behaviour (amounts, interleaving, exit codes 0 to 255, signals) and every subset of connected ports',
 'Tests use a few programs which exit with one or two codes and produce little output.',
 ['src/launch.rs','src/waiter.rs','src/config_manip.rs'],
 [('Launch::start','src/launch.rs'),('Launch::add_output','src/launch.rs')],
 ['drain files fed from each port'])

p('C07','A run ends when, and only when, all work is done',
 'pa2 process exits (and never hangs) once every source has ended or failed, whatever fails: a program which cannot be started, exits early, ignores its input or is killed, a source or destination which cannot be opened, read or written. It does not exit before every launched program, also one nothing is connected from, has exited and everything the drains received is in its destination. Its status is 0 when nothing failed and 1, with an error report, when a component failed; never a panic.',
 ['fault_sequences','programs','schedules'],'every acyclic network, every combination of failing components, every moment of failure',
 'Existing tests contain no failing component at all and can only wait for a fixed time.',
 ['src/waiter.rs','src/motion.rs','src/launch.rs','src/faucet.rs','src/drain.rs','src/junction.rs','src/buffer.rs','src/config_manip.rs'],
 [('Waiter::start joins all components','src/waiter.rs'),('exit watchers added to launches','src/config_manip.rs'),('dropping channels on every way out','src/*.rs')],
 ['exit status, stderr and duration of pa2','files written by launched programs'])

p('C08','A buffer never pushes back, keeps order and counts exactly',
 'A buffer accepts messages without limit while nothing reads from it, then delivers all of them, complete and in order. The sizes it reports to those watching it follow its content: never negative or larger than what was accepted and not yet delivered, changing in single steps of what came in and went out, and ending at zero when it has been emptied.',
 ['histories','inputs','schedules'],'every sequence of arrivals and reads, every number of messages and of watchers',
 'One unit test passes four messages and looks at the last size only.',
 ['src/buffer.rs','src/motion.rs'],
 [('unbounded channel between two motions','src/buffer.rs'),('total_in_buffer','src/buffer.rs')],
 ['messages accepted while the output is stalled','BufferSizeMessage stream'])

p('C09','Without a buffer a stalled consumer stops the producer',
 'In a network without a buffer, when a consumer stops reading, the amount its producers get rid of is bounded by a constant per component (a handful of messages plus the operating system\'s pipe capacity), independent of how much there is to send. When the consumer continues everything is delivered, complete and in order.',
 ['schedules','programs','inputs'],'every chain without buffers, every amount of input, every moment and duration of a stall',
 'No test has a consumer which stalls.',
 ['src/junction.rs','src/faucet.rs','src/regulator.rs','src/launch.rs','src/motion.rs'],
 [('bounded channels between components','src/*.rs')],
 ['number of messages accepted from a producer while the consumer is stalled'])

p('C10','A regulator holds back between its watermarks and never loses',
 'Once the buffers a regulator watches together hold its high watermark or more, it passes at most a few more messages on, until they together hold its low watermark or less, after which it passes messages on again. It delivers every message in order, and it never causes a deadlock or a stall while there is room, for any watermarks, any number of watched buffers (which are not before it, as it would stop those from emptying) and any pattern of bursts; a regulator which watches nothing is transparent.',
 ['histories','schedules','configurations'],'every watermark pair, every set of watched buffers, every burst pattern upstream and downstream',
 'One unit test toggles pause and resume once by hand; the path from buffer sizes to pausing is untested.',
 ['src/regulator.rs','src/waiter.rs','src/buffer.rs','src/config.rs'],
 [('manage_regulator_from_buffers','src/waiter.rs'),('RegulatorControl','src/regulator.rs'),('buffer size monitors','src/buffer.rs')],
 ['messages passed while the watched buffers are above the high watermark','completion and content of the run'])

p('C11','JoinStrings mean exactly what is documented',
 'A JoinString is accepted exactly when it is empty or two or more components joined with |, |T|, |F| or |C| (spaces around allowed), each a full or one letter type name, a colon and a name of letters, digits and underscores, an optional [integer] priority before all but the first and an optional [E], [O] or [X] after all but the last. It then means exactly those types, names, priorities (default 0), ports (default stdout) and pipe kinds (default T, attached to the receiving component); everything else is refused.',
 ['inputs'],'every string',
 'Unit tests parse about a dozen fixed strings.',
 ['src/config.rs'],
 [('load_connection_from_string','src/config.rs')],
 ['connections printed by config lint / config manipulate / config connection join'])

p('C12','Multiple connections are equivalent to explicit junctions',
 'Connecting one output to several inputs, or several outputs to one input, works for every component and port that has such an input or output, as if a junction had been put there: same data everywhere as with the junction written out. What pa2 adds for this and for awaiting programs never collides with, renames or changes anything the user named (also when the user\'s names look like generated ones) and adds no output of its own; config manipulate only splits each connection into its consecutive pairs under numbered keys, with ports, priorities and pipe kinds kept.',
 ['configurations'],'every network and every naming, including names that look generated',
 'The unit test of this module does not even compile at this commit; two bats layouts use it with fixed names.',
 ['src/config_manip.rs','src/waiter.rs'],
 [('rebuild_pair_up_connections_folder','src/config_manip.rs'),('add_junctions','src/config_manip.rs'),('add_launch_exit_spies','src/config_manip.rs'),('generate_new_key','src/config_manip.rs')],
 ['drain contents','printed configuration'])

p('C13','Config edit commands change exactly what they name',
 'Each config edit command (faucet source, drain destination, regulator watermark, connection join, launch command, path, args and env) prints the given configuration with exactly that one setting of that one id set to exactly the given value, creating the entry with defaults for the rest when absent; everything else stays the same. Watermarks given in the wrong order are swapped; invalid values (a JoinString that does not parse, NAME=VALUE without a name, a non number) are refused with exit status 1 without printing a configuration, so any sequence of edits leads to the configuration it spells out.',
 ['histories','inputs','configurations'],'every configuration, every sequence of edit commands, every value a shell can pass',
 'Unit tests do one edit each on one configuration.',
 ['src/config.rs','src/bin/pa2.rs'],
 [('Config::*_set_*, connection_join','src/config.rs'),('argument handling','src/bin/pa2.rs')],
 ['printed configuration','exit status'])

p('C14','Configurations survive reading and printing, JSON and YAML alike',
 'A configuration has the same meaning as JSON and as YAML, read from a file or from standard input, and what pa2 prints can be read back with the same meaning: omitted fields take the documented defaults and no field is lost or changed. This includes connection lists written out as objects, with every combination of port, priority and pipe kind, and strings with any characters.',
 ['inputs','configurations'],'every configuration value and both formats',
 'Unit tests deserialize two fixed JSON documents.',
 ['src/config.rs','src/config_io.rs','src/connectable.rs'],
 [('serde definitions','src/config.rs'),('read_config / parse_config_str','src/config_io.rs')],
 ['configuration printed by config commands'])

p('C15','Lint reports exactly the inconsistencies there are',
 'config lint prints the configuration and exits 0 exactly when the configuration is consistent; otherwise it exits 1 and reports, each exactly once and no others: every setting of a faucet, drain, regulator or launch used in no connection (0001), every faucet, drain, regulator or launch in a connection without settings (0002), every regulator watching a buffer in no connection (0004), or, alone, every connection that cannot be converted (0003). process and graph refuse to do anything for the same reports other than 0001.',
 ['configurations'],'every configuration',
 'Unit and bats tests have one small configuration per kind of report.',
 ['src/config.rs','src/bin/pa2.rs'],
 [('Config::lint','src/config.rs')],
 ['stderr and exit status of config lint, process and graph'])

p('C16','The graph shows exactly the configured components and connections',
 'graph prints a DOT document that can be parsed, with exactly one node identity per component (of its type\'s shape and colour, labelled with its name) and exactly one edge per connected pair in its direction, labelled when it leaves stderr or the exit port. Components are grouped under their connection set, and the diagram and legend options include and leave out exactly what they say, for all names.',
 ['configurations'],'every valid configuration, every name',
 'Unit tests compare the internal lists for one configuration; the printed DOT is not looked at.',
 ['src/graph.rs','src/bin/pa2.rs','src/config.rs'],
 [('get_diagram','src/graph.rs'),('convert_connection_to_graph_connection','src/graph.rs'),('quick_add_connection_set','src/config.rs')],
 ['stdout of graph'])

p('C17','Drains and faucets use the place they name, and only that',
 'A drain writes exactly what it received to the place it names: "-" is stdout, "_" is stderr, empty and /dev/null discard, anything else is that file, replacing its previous content completely, created also when nothing is received. A faucet reads exactly its place: "-" is stdin, empty is no input, anything else that file. pa2 itself adds nothing to stdout when processing, and nothing to stderr unless something failed.',
 ['configurations','inputs'],'every assignment of sources and destinations, every content and previous content',
 'Bats tests use stdout and one file with matching expectations.',
 ['src/drain.rs','src/faucet.rs','src/bin/pa2.rs','src/config_manip.rs'],
 [('Drain::start','src/drain.rs'),('Faucet::start','src/faucet.rs')],
 ['stdout, stderr and files'])

p('C18','Programs get exactly the configured command, arguments, env and path',
 'A launched program is started exactly once, with exactly the configured arguments in order (empty ones, spaces, quotes, non ASCII, leading dashes), in the configured directory or else pa2\'s own, with pa2\'s environment plus the configured variables, the latter winning. No shell interprets any of it, and its input is exactly what is connected to it, or empty when nothing is.',
 ['configurations','inputs'],'every argument list, environment and directory',
 'Tests only use plain words as arguments and never look at environment or directory.',
 ['src/launch.rs','src/waiter.rs','src/config.rs'],
 [('environment_configure','src/launch.rs'),('constructor in get_waiter','src/waiter.rs')],
 ['argv, environment, directory and stdin seen by a recording program'])

p('C19','Anything that is not a valid configuration is refused cleanly',
 'For any bytes given as configuration and any command, pa2 either accepts it or exits with status 1 and an error report on stderr, without a panic, without printing a result and, for process, without starting any program or touching any file. This covers documents that do not parse, wrong types, connections that do not form a chain, ports or inputs a faucet, drain, regulator or launch does not have, priorities on components other than a junction and launches without settings or command.',
 ['inputs','configurations'],'every byte string and every structurally mutated configuration',
 'Tests only ever use configurations that parse.',
 ['src/config.rs','src/config_io.rs','src/bin/pa2.rs','src/waiter.rs','src/config_manip.rs'],
 [('parse_config_str','src/config_io.rs'),('Config::convert_connections','src/config.rs'),('get_waiter','src/waiter.rs')],
 ['exit status, stdout, stderr, files'])

p('C20','Loops recirculate every message exactly as routed',
 'In a network with a loop (a junction fed by its own output through programs) every message goes round exactly as often as the programs in the loop send it round, and each pass delivers it exactly once to every branch, with nothing lost or repeated. This holds for any number of messages in flight when the loop contains a buffer, and the run ends when a program in the loop ends it.',
 ['programs','inputs','schedules'],'every loop layout, every number of messages and passes',
 'The bats tests play random tic-tac-toe games with one message in flight.',
 ['src/junction.rs','src/buffer.rs','src/config_manip.rs','src/launch.rs'],
 [('junction polling of all inputs','src/junction.rs'),('unbounded buffer','src/buffer.rs')],
 ['drain contents'])

p('C21','Observing a run shows all traffic and does not change it',
 'With an observer attached to a run it is told of every message on every connection between components: source, destination, port and content, in the order they were sent on that connection, exactly once, with a message the receiver got never missing. The data delivered is the same as without the observer.',
 ['programs','inputs','schedules'],'every network and content',
 'One unit test attaches an observer to one worker for one message.',
 ['src/motion.rs','src/waiter.rs','src/launch.rs','src/buffer.rs'],
 [('spy messages in motion_worker','src/motion.rs'),('exit status spy','src/launch.rs')],
 ['observer channel of Waiter::start'])

p('C22','Error reports name the component that failed',
 'When a run fails, the report contains a line for every component that failed by itself, that is every faucet whose source or drain whose destination cannot be opened or used, every program which cannot be started and every component which was stopped because the receiver of a connection of kind T closed early (one such connection of each), naming the component (or the sending and receiving component) and the reason. It names nothing that is not part of the configuration as the user or pa2 completed it, and a run without failure reports nothing.',
 ['fault_sequences','configurations'],'every network and every combination of failing components',
 'No test provokes a failure at run time.',
 ['src/waiter.rs','src/bin_support.rs','src/motion.rs','src/bin/pa2.rs'],
 [('waiter_error_to_string','src/bin_support.rs'),('CausedByError','src/waiter.rs'),('journeys attached to errors','src/motion.rs')],
 ['stderr and exit status of process'])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d,ensure_ascii=False)+'\n')
