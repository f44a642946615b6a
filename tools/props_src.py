"""Source of properties.jsonl / MANIFEST.json (run tools/gen.py after editing)."""
P = []
NA = []   # (id, reason)


def p(id, title, statement, over, quant, why, files, mech, observe, state=(), note="", level="model_checking"):
  P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
    anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech],
                 observe_at=observe, hook_needed=None), _note=note, _level=level))


NET = "streamtasks/net/__init__.py"
NETF = [NET, "streamtasks/net/helpers.py", "streamtasks/net/messages.py", "streamtasks/utils.py"]

p("C01", "Topic messages reach every other subscriber of a switch exactly once",
  "Every data or pause/resume message that arrives at a switch for a topic is forwarded unchanged and exactly once to every other attached link that is currently subscribed to the topic, and to no other link. A link that subscribes later is immediately told the last pause/resume state of the topic, if one was ever sent, and nothing else.",
  ["histories", "inputs"], "every bounded history of subscribe, unsubscribe, data, pause/resume and disconnect events on the links of a switch, every payload",
  "Delivery depends on the whole history of subscriptions per link; tests exercise one subscriber and one message.", NETF,
  [("Switch.on_stream_message", NET), ("Switch.on_in_topics_changed", NET), ("Link._process_recv_message", NET)], ["messages sent on each link"],
  [("Link.in_topics", "topics the neighbour subscribed to", NET), ("Switch.stream_controls", "last pause state per topic", NET)])
p("C02", "A switch subscribes upstream exactly where demand and the cheapest provider are",
  "While at least one attached link is subscribed to a topic and at least one attached link announces it, the switch is subscribed to that topic at exactly one link, and that link is a provider with the lowest total cost (announced cost plus link cost). When the last subscriber unsubscribes or disconnects, or no provider is left, the switch holds no subscription for the topic; a provider that withdraws or disappears is replaced by a remaining one.",
  ["histories", "inputs"], "every bounded history of announce, withdraw, subscribe, unsubscribe (also redundant ones), disconnect and connection loss events over several links, with every announced cost and link cost",
  "The subscription at any time depends on the order of announcements, subscriptions and failures; tests cover one provider that stays.", NETF,
  [("Switch.request_in_topics_change", NET), ("Switch.on_out_topics_changed", NET), ("Switch.remove_link", NET)], ["subscription messages sent to each link"],
  [("Switch.in_topics", "number of subscribers per topic", NET), ("Link.recv_topics", "topics subscribed at the neighbour", NET)])
p("C03", "Announcements to neighbours mirror what is reachable and at what cost",
  "At any quiescent point every attached link that never offered a given topic or address itself has been told about it exactly if some other attached link currently offers it, and at the lowest total cost (announced cost plus cost of the link it came over). Nothing that nobody offers any more stays announced to any link, including links that join at any later point.",
  ["histories", "inputs"], "every bounded history of announcements, withdrawals, disconnects, connection losses and newly joining links, with every announced cost and link cost; a neighbour withdraws an id before announcing it at another cost",
  "Announcement state is a fold over the whole event history with reference-counted costs.", NETF,
  [("PricedIdTracker", "streamtasks/net/helpers.py"), ("Switch.on_out_topics_changed", NET), ("Switch.on_addresses_changed", NET), ("Switch.add_link", NET), ("Switch.remove_link", NET)],
  ["announcement messages sent to each link"], [("Switch.out_topics", "offered topics and costs", NET), ("Switch.addresses", "offered addresses and costs", NET)])
p("C04", "An addressed message follows the cheapest link that announced the address",
  "A message sent to an address is forwarded to exactly one attached link, one that currently announces the address at the lowest total cost, with address, port and payload unchanged. If no attached link announces the address the message is dropped, and the sender's link stays attached.",
  ["histories", "inputs"], "every bounded history of address announcements, withdrawals, disconnects and messages over several links, every cost, port and payload",
  "Which link is chosen depends on the history of announcements and costs.", NETF,
  [("Switch.on_addressed_message", NET), ("PricedIdTracker", "streamtasks/net/helpers.py")], ["messages sent on each link"], [("Switch.addresses", "offered addresses and costs", NET)])
p("C05", "Data and addressed messages travel end to end across connected switches",
  "In a network of switches joined without cycles, a topic message sent by the topic's provider reaches every subscriber that is connected to it (over any number of switches) exactly once and nobody else, and the provider is asked for the topic exactly while such a subscriber exists. An addressed message reaches exactly the owner of the address, or nobody if the owner is not connected; both hold after links between switches are cut and connected again.",
  ["histories", "inputs"], "every bounded history of announce, withdraw, subscribe, unsubscribe, cut and reconnect events on lines of 2 and 3 switches",
  "Multi-switch agreement depends on the order in which providers, subscribers and links come and go.", NETF,
  [("Switch", NET), ("create_queue_connection", NET)], ["messages received by each endpoint"])
p("C06", "A failing link harms nobody else",
  "When a link closes, loses its connection, or fails while being written to, every other link stays attached and keeps receiving everything it is subscribed to exactly once. Once the failed link's loss is noticed it is detached and closed, its announcements are withdrawn from the others, its subscriptions are released and what was subscribed at it moves to a remaining provider.",
  ["fault_sequences", "histories"], "every bounded history of announcements, subscriptions and messages interleaved with links whose sends start failing, whose receive fails, or which are closed",
  "Tests do not inject link failures between events.", NETF,
  [("Switch.send_to", NET), ("Switch._run_link_receiving", NET), ("Switch.remove_link", NET), ("LinkManager.remove_link", NET)], ["messages sent on the surviving links", "membership of links"])
p("C07", "A topic remapping link translates topics in both directions and nothing else",
  "Every message sent over a remapping link leaves with its topic ids replaced through the map (unmapped ids unchanged), and every message received through it has the replacement undone; costs, payloads, pause flags, addresses and ports are unchanged.",
  ["inputs"], "every one-to-one map of two topics, every id inside or outside the map, every kind of message, both directions",
  "Tests use one fixed map and data messages.", [NET], [("TopicRemappingLink", NET)], ["messages on the inner and outer link"])

SER, CON = "streamtasks/net/serialization.py", "streamtasks/connection.py"
p("C08", "Messages survive the wire unchanged",
  "Every message that is serialized for a connection is received as an equal message: same kind, topics, addresses, ports, costs, pause flag, added and removed ids, and payload. Forwarding a received payload keeps it; a payload that is changed in place after announcing the change is sent changed; a copied payload is independent of the original. Priced ids are equal exactly if id and cost are.",
  ["inputs"], "every message kind, every id, cost and port below 2^63, id sets of up to 3, payloads of 7 shapes with every integer and short string, every order of reading, serializing, changing and copying a payload",
  "Tests send a few fixed messages.", [SER, "streamtasks/net/messages.py"], [("serialize_message / deserialize_message", SER), ("RawData", SER)], ["the deserialized message"])
p("C09", "Framed messages survive garbage and concurrent senders",
  "On a stream connection every sent frame is received whole, in order and unchanged, also when it is preceded by arbitrary bytes that contain no start mark. Frames sent concurrently, or whose sender is cancelled while waiting, never mix. The end of the stream is reported as a closed connection.",
  ["inputs", "schedules"], "every frame of up to 3 bytes, every garbage prefix of up to 6 bytes, every overlap and cancellation of 3 concurrent sends",
  "Resynchronisation depends on the exact bytes before a frame.", [CON], [("RawStreamConnection._recv", CON), ("RawConnection.send", CON)], ["received frames"])
p("C10", "Every connecting client must present the server's password and version",
  "A server accepts a connecting client exactly if the client's version equals its own and the client's password equals the one configured at the server (both absent counts as equal), for every client in a sequence of clients. A rejected client ends up without a connection on both sides, and the server never sends the configured password to clients.",
  ["inputs", "histories"], "every sequence of up to 3 clients, every presence and content (up to 2 characters) of the passwords, equal and different versions",
  "Tests connect one client per server with matching credentials.", [CON], [("RawConnection.init_server", CON), ("RawConnection.init_client", CON), ("ServerBase.handshake_data", CON)], ["outcome of the handshake at both ends", "bytes sent by the server"])
CL = "streamtasks/client/__init__.py"
p("C11", "Signals and broadcasts reach exactly their handlers",
  "Every well-formed signal sent to a signal server with a registered descriptor is handed to that descriptor's handler exactly once, in sending order, and a failing handler, an unknown descriptor or a malformed message does not stop the server. A broadcast reaches every started receiver of its namespace exactly once, labelled with the namespace, and no other receiver.",
  ["histories", "inputs"], "every history of up to 4 signals of 6 kinds from 2 clients; every history of up to 5 starts, stops and broadcasts over 2 receivers and 3 namespaces; every payload integer",
  "Tests cover one namespace and well-behaved handlers.", ["streamtasks/client/signal.py", "streamtasks/client/broadcast.py"], [("SignalServer", "streamtasks/client/signal.py"), ("BroadcastingServer", "streamtasks/client/broadcast.py")], ["handler calls", "received broadcasts"])
p("C12", "Endpoint text identifies the endpoint",
  "Every endpoint with a numeric address, or with a name that has no colon and does not start with a digit, is turned into text that parses back to the same endpoint; other names are rejected. Text without exactly one colon is rejected, and whatever text parses prints to text that parses to the same endpoint.",
  ["inputs"], "every name of up to 4 printable ASCII characters, every address and port up to 9999, every text of up to 5 characters over digits, letters, colon, underscore and dash",
  "Round trips hold for all strings or not at all.", ["streamtasks/net/utils.py"], [("endpoint_to_str / str_to_endpoint", "streamtasks/net/utils.py")], ["the parsed endpoint"])
p("C13", "Every request gets exactly one response, its own",
  "Each fetch returns the response its own request was answered with, or raises the error it was answered with; the server sends exactly one response per request whatever the handler does (responds, responds with an error, returns without responding, raises before or after responding) and keeps serving. Overlapping fetches of one client all complete at any relative timing; unrelated or malformed messages have no effect.",
  ["schedules", "inputs", "fault_sequences"], "every combination of 7 handler behaviours over up to 3 requests from 1 or 2 clients with stray messages; two overlapping fetches at every offset of up to 30 scheduling steps; every request body integer",
  "Tests run one fetch at a time.", ["streamtasks/client/fetch.py", CL], [("FetchServer.run", "streamtasks/client/fetch.py"), ("Client.fetch", CL), ("Client.enable_receiver / disable_receiver", CL)], ["result of fetch", "messages sent by the server"])
p("C14", "A client is subscribed to what its receivers need and they get it all",
  "A client has a topic registered (as input or as output) with its link exactly while more registrations than removals of it are in effect, and sends no redundant changes. A started receiver gets every data and pause message of its topics in order and exactly once, nothing else, and nothing for topics the client is not registered for. An output knows whether it is requested; an input knows its last pause state and the currently announced cost of its topic.",
  ["histories", "inputs"], "every history of up to 5 register, unregister and forced unregister calls over overlapping topic sets; every history of up to 4 start, stop, data, pause and demand events over three receivers; every announced cost",
  "Reference counts depend on the history.", [CL, "streamtasks/client/receiver.py", "streamtasks/client/topic.py", "streamtasks/utils.py"], [("Client.register_in_topics ...", CL), ("IdTracker", "streamtasks/utils.py"), ("Client._task_receive", CL)], ["messages on the link", "received messages"])
p("C15", "Synchronised inputs release messages in timestamp order",
  "Inputs sharing a sequential synchronizer release messages so that, once an input takes part, no message is released after a newer one of another input; messages older than an accepted message of their own input are dropped, the rest is released in order, and a message waits only while another, unpaused input's newest message is older. With priorities, among equal timestamps the input with the higher priority is released and processed to completion first if its message has arrived.",
  ["inputs", "schedules"], "every symbolic integer timestamp, every arrival interleaving of 2+2 and 1+2+1 messages (thorough 3+2 and 2+2+1), consumers with and without processing time, a pause at every position, every priority order",
  "Ordering has to hold for every timestamp pattern and interleaving; tests use increasing timestamps.", ["streamtasks/client/topic.py"], [("SequentialInTopicSynchronizer", "streamtasks/client/topic.py"), ("PrioritizedSequentialInTopicSynchronizer", "streamtasks/client/topic.py")], ["order in which consumers get messages"])
p("C16", "Discovery hands out unique ids and resolves names to their holder",
  "All topic ids and all addresses handed out while the discovery service runs are distinct, as many as asked for, and not reserved ones; invalid counts are refused. A registered name resolves to the address that holds it and is unknown after it was given up, also to its former holder; waiting for a name ends exactly when it is registered. A topic space maps its topics one-to-one to fresh ids, and translation, listing and deletion of spaces agree with that.",
  ["histories", "inputs"], "every history of up to 4 requests with counts -1..2 by fetch and by signal; every history of up to 5 register, leave, wait and resolve events over two symbolic names; symbolic topic ids in spaces",
  "Tests register one name and one space.", ["streamtasks/services/discovery.py", "streamtasks/client/discovery.py"], [("DiscoveryWorker", "streamtasks/services/discovery.py"), ("address_name_context / wait_for_address_name", "streamtasks/client/discovery.py")], ["responses to clients"])

T = "streamtasks/system/tasks/"
p("C17", "The gate forwards exactly while it is open",
  "The gate forwards every input message unchanged and once while it is open and none otherwise; it is open while the last valid control value is above 0.5 (before the first one: the configured initial state), the input is not paused and, in fail mode closed, the control is neither paused nor was its last message malformed. The output topic is paused exactly while the gate is closed. With synchronisation, a message is judged by the control value in force at the message's timestamp.",
  ["histories", "inputs", "schedules"], "every history of up to 4 (thorough 5) control, malformed, pause and data events with every float value; every arrival interleaving and every increasing timestamp pattern of 2+3 (3+3) messages when synchronised",
  "The state is the product of four flags fed by two concurrent receivers; tests use a handful of messages.", [T + "gate.py", "streamtasks/client/topic.py"], [("GateTask", T + "gate.py")], ["messages on the output topic"])
p("C18", "A switch forwards the input with the highest control value, and only that",
  "The switch node forwards each message of the input whose control has the highest current value, unchanged and once, and no message of another input; controls that are paused, never had a value or were last sent not-a-number do not take part. The output is paused exactly while the selected input is. The media switch moreover starts forwarding a newly selected input only with a keyframe and from then on forwards every packet until another input takes over.",
  ["histories", "inputs"], "every history of up to 3 (thorough 4) control, pause, malformed and data events over 2 and 3 pairs with every float control value; media: additionally 6 (7) selections and key or delta packets",
  "Which input is selected depends on the whole control history; the tests cover one change.", [T + "switch.py", T + "media/mediaswitch.py"], [("SwitchTask", T + "switch.py"), ("MediaSwitchTask", T + "media/mediaswitch.py")], ["messages on the output topic"])
p("C19", "The SR latch holds the state of the last set or reset",
  "For every valid number on set or reset the latch sends one number with that message's timestamp: 1 after set is high while reset is not, 0 after reset is high while set is not, otherwise the previous state (initially the configured default); a value is high above 0.5. Malformed messages change nothing. With synchronisation, the state follows the order of the timestamps on both inputs, whatever the order of arrival.",
  ["histories", "inputs", "schedules"], "every history of up to 4 (thorough 6) messages with every float value incl. NaN and infinities; every arrival order of 3+2 (3+3) messages with every increasing timestamps",
  "There is no test of the latch under interleaved inputs.", [T + "srlatch.py", "streamtasks/client/topic.py"], [("SRLatchTask", T + "srlatch.py")], ["messages on the output topic"])
p("C20", "Time buffer, replay buffer and repeater lose, reorder and mistime nothing",
  "Time buffer: every message comes out once, in order and unchanged, by message time as soon as a message at least the configured time newer arrived or the input is paused, by clock exactly when its delay is over; the output is paused once the input is paused and everything came out. Replay buffer: while playing it sends the buffered messages in order at their relative times, restarting if looping, sends nothing while stopped, and its output is paused while it holds messages and does not play them. Repeater: sends the last message at the configured rate, its timestamp advanced by the time passed, and nothing while the input is paused. All keep running on messages that are malformed or carry no timestamp.",
  ["histories", "inputs", "schedules"], "every bounded history of messages and pauses at symbolic times with symbolic timestamps and buffer sizes",
  "Timing defects show at particular relations of timestamps, sizes and pause times, which tests with real clocks cannot sweep.", [T + "timebuffer.py", T + "replaybuffer.py", T + "repeater.py", "streamtasks/rawdatabuffer.py"],
  [("TimeBufferTask", T + "timebuffer.py"), ("ReplayBufferTask", T + "replaybuffer.py"), ("RepeaterTask", T + "repeater.py")], ["messages on the output topic and their times"])
p("C21", "Timestamp updater, time to text and synchronizer stamp and order messages right",
  "Timestamp updater: every message whose timestamp is usable (a finite number; by clock: any dictionary with a timestamp) is sent once with the timestamp replaced by the reference time plus the offset and everything else unchanged; other messages are dropped when it fails closed and passed unchanged otherwise. Time to text: every message with an integer timestamp that is a representable date becomes its text, others are dropped. Synchronizer: each stream keeps its messages and their order and the streams are released in timestamp order. Pauses are mirrored and no message ends a node.",
  ["inputs", "schedules"], "all integer and float timestamps (incl. NaN and infinities), messages of every shape, every offset, all arrival interleavings of 2+2 messages",
  "Only special values (infinity, unrepresentable dates, messages that are no dictionaries) break these nodes.", [T + "timestampupdater.py", T + "timetotext.py", T + "synchronizer.py", "streamtasks/message/utils.py"],
  [("set_timestamp_on_message / get_timestamp_from_message", "streamtasks/message/utils.py")], ["messages on the output topics"])
p("C22", "The message detector reports whether valid messages are arriving",
  "The detector's signal is 1 while the input is not paused, no time-out has run out since the last message and (in fail mode closed) the last message carried a usable timestamp, and 0 otherwise. A change is sent at once with the timestamp of the message that caused it; with a repeat interval the current signal is sent again at that interval after the last one; nothing else is sent.",
  ["histories", "inputs", "schedules"], "every history of 2-3 (thorough 3-4) messages, malformed messages, pauses and resumes at symbolic times, with and without time-out and repetition",
  "Whether a signal is right depends on the relation of message times, time-outs and repetitions.", [T + "messagedetector.py"], [("MessageDetectorTask", T + "messagedetector.py")], ["messages on the signal topic"])
p("C23", "Text nodes concatenate, match and format exactly what they were sent",
  "Concatenator: when the control rises above 0.5 the texts received since the last time are sent as one, in order, with the control's timestamp, and nothing otherwise; synchronised, the texts up to the control's timestamp. Matcher: one number per text, 1 exactly if the text contains the configured literal pattern anywhere (ignoring case if so configured). Formatter: every text yields the template with the current value of each variable (its default after a pause), with the text's timestamp. Number to text: one text per number. Malformed messages change nothing and end nothing.",
  ["inputs", "histories", "schedules"], "every text of up to 3 (thorough 4) characters against 12 patterns and 6 flag sets; every history of up to 4 (5) texts, controls, pauses and malformed messages with every float control value",
  "Literal patterns containing metacharacters or texts with line breaks, and control histories, are not sampled by any test.", [T + "stringconcatenator.py", T + "stringmatcher.py", T + "textformatter.py", T + "numbertotext.py"],
  [("StringMatcherTask", T + "stringmatcher.py"), ("StringConcatenatorTask", T + "stringconcatenator.py"), ("TextFormatterTask", T + "textformatter.py")], ["messages on the output topic"])
p("C24", "The calculator computes the value of its formula for every valid input",
  "For every valid number on an input the calculator sends one number with that message's timestamp: the value of the formula for the current inputs (the default of a variable before its first value and after a pause). Operators have their documented meaning; ** binds strongest after the unary - + !, then * / %, then + -, then & | ^, then comparisons, then ?:, with - and / and % grouping from the left; comparisons and logical operators yield 1 or 0 and values above 0.5 count as true. Where the formula has no value (division by zero, domain errors) nothing is sent and the node keeps running. With synchronisation, values meet in timestamp order.",
  ["inputs", "histories"], "every formula of up to 2 operators (a sample of 3 in thorough) with and without redundant parentheses, all variable values; every history of 3 (4) events; every interleaving of 2+2 synchronised messages",
  "The one test evaluates sin(a)+b; precedence, conditionals and domain errors depend on formula and values.", [T + "calculator.py"], [("CalculatorGrammar", T + "calculator.py"), ("CalculatorEvalTransformer", T + "calculator.py")], ["messages on the output topic"])

S = "streamtasks/system/"
p("C41", "A topic name connects the nodes that use it, and only those",
  "Whatever a named output node is fed comes out, unchanged and once, at every running named input node of the same name and at none of another name, wherever in the network the nodes and the named topic manager run. A name resolves to one topic id for as long as the manager runs and different names to different ids. Listing and getting report exactly the names put or resolved and not deleted since, with the metadata last put, and puts and deletions are saved.",
  ["histories", "inputs"], "seven arrangements of up to 4 nodes over two names with symbolic payloads; every history of up to 3 (thorough 4) list, get, put, delete and resolve requests",
  "No test runs named topics at all.", [S + "named_topic_manager.py", T + "namedinput.py", T + "namedoutput.py"], [("NamedTopicManager.run_fetch_server", S + "named_topic_manager.py"), ("NamedInputTask", T + "namedinput.py")], ["data on the nodes' topics", "responses of the manager"])
p("C42", "A secret resolves to the value last put under its id",
  "Resolving a secret yields the value last put under its id, from any node of the network; an id that was never put or was deleted is reported as not found; puts and deletions are saved. The secret manager and the named topic manager run side by side without taking each other's requests.",
  ["histories", "inputs"], "every history of up to 3 (thorough 4) put, delete and resolve requests over two ids with symbolic values, both orders of starting the managers, connections that serialise",
  "No test covers secrets.", [S + "secret_manager.py", "streamtasks/services/constants.py"], [("SecretManager.run_fetch_server", S + "secret_manager.py"), ("SecretManagerClient", S + "secret_manager.py")], ["responses of the manager"])
p("C29", "Deployments follow their rules and report what became of their tasks",
  "A deployment is offline, scheduled, running and offline again through schedule, start and stop, and reported so. While it is scheduled or running, it and its tasks cannot be changed, deleted, added to or moved out of; a request the rules do not allow is refused and changes and starts nothing. There is one deployment and one task per id, as last stored, and changes are saved. Starting starts every task once with its stored config; stopping leaves none of them running, whatever happened during the start; a task has an instance while its deployment is active, with the status of what became of it.",
  ["histories", "inputs"], "every history of 3 (thorough 4) of 12 requests from a prepared deployment, of 2 (3) from none, a scheduled and a running one; a start that fails for either of two tasks",
  "The rules concern combinations of requests in any order; the tests send no deployment request.", [S + "task_web.py", S + "task.py"], [("TaskWebBackendStore", S + "task_web.py"), ("TaskWebBackend.run_asgi_server", S + "task_web.py")], ["HTTP responses of the backend", "tasks the host runs"])
p("C30", "What is known about a task agrees with what it does, until it ended",
  "A started task is answered for and listed as running until it ends; its end is told to its subscribers exactly once, with how it ended (ended, failed with its error, stopped), and from then on it is unknown, at whatever moment it ends, is cancelled or its host is told to stop. A task that cannot be created or set up is answered as failed and does not run; a task is started at most once; unknown tasks and hosts are refused. Waiting for a cancellation returns the stopped task. A host that is told to stop stops its tasks and leaves the list; a host that leaves keeps neither the manager nor other tasks from working.",
  ["schedules", "histories"], "an end, failure, cancellation or host shutdown at every step (0..124) of a start; every history of 4 (thorough 5) starts, ends, failures, cancellations and leaving hosts over two hosts; failing creations and set-ups",
  "Tests start and cancel one idle task; what breaks is an end that meets a start, cancellation or shutdown in progress.", [S + "task.py", "streamtasks/client/broadcast.py"], [("TaskHost.run_task", S + "task.py"), ("TaskManager.run_fetch_api", S + "task.py"), ("TaskManager.run_signal_api", S + "task.py"), ("TaskManagerClient.cancel_task_wait", S + "task.py")], ["responses and broadcasts of the manager", "tasks the host runs"])

ASGI, ASV = "streamtasks/asgi.py", "streamtasks/asgiserver.py"
p("C25", "An application is served through the network as if it were called directly",
  "A request made at a proxy reaches the application at the other address with its scope and, in order, every event the server has for it, and the server gets every event the application sends, in order; values arrive with the value and type they had (functions become None). The request ends when the application ends, also when it fails, without keeping the application from serving further requests. Requests at the same time do not mix, at whatever moment the second one or a disconnection arrives, and nothing is left behind of a request that ended.",
  ["inputs", "schedules"], "values of every type in containers up to two levels with symbolic leaves; up to 3 events in either direction; a second request or disconnection at every step (0..89) of the first; failing applications",
  "Tests send one request with fixed texts; types, simultaneous requests and disconnections in between are not covered.", [ASGI, "streamtasks/client/receiver.py"],
  [("ASGIProxyApp.__call__", ASGI), ("ASGIAppRunner.run", ASGI), ("JSONValueTransformer", ASGI)], ["scope and events at the application", "events at the server"])
p("C26", "A path is answered by the first route whose pattern it reads as",
  "A path matches a pattern exactly if it reads as the pattern's literals with one text for each parameter, where a text contains a slash only for a parameter marked with *; the parameters put back into the pattern give the path, and constructing a path from values does so or refuses values that may not be put in. A request is answered by the first route, in the order they were added, whose pattern the path reads as and which serves its method or connection type, with that route's parameters, and otherwise as not found.",
  ["inputs"], "16 patterns of every shape in use with every ASCII path of up to 10 (thorough 14) characters; 6 routers of up to 7 routes with every path of up to 8 (11) characters",
  "Tests match four fixed paths; ends, empty segments and overlapping routes depend on the path.", [ASV],
  [("PathPattern.match", ASV), ("PathPattern.construct", ASV), ("ASGIRouter", ASV)], ["the route that answers and its parameters"])
p("C27", "Bodies, messages and data URIs carry exactly the bytes they were given",
  "A request body is read as exactly the bytes sent, however they are split into events; a text body only with the expected type. A response from memory, text or file carries exactly the given bytes, ends once and tells their number and type. Web socket messages, empty ones included, arrive as the bytes or text they were, in order, until the connection ends. A data URI yields the bytes of its decoded payload with the type and character set it names; what is no data URI is refused.",
  ["inputs"], "bodies of up to 6 (thorough 8) symbolic bytes in every split into up to 3 (4) events; responses with every file buffer size from 1 to 5; every ASCII payload of a data URI of up to 4 (5) characters, percent-encoded bytes included",
  "Splits, empty messages and particular payload bytes are not sampled by the tests.", [ASV, "streamtasks/utils.py"],
  [("HTTPBodyReader", ASV), ("HTTPContext.respond_file", ASV), ("WebsocketContext.receive_message", ASV), ("decode_data_uri", ASV)], ["what the handler reads", "events sent to the server"])
p("C28", "Static files are served exactly from inside the served directory",
  "A request for a path that names, after resolving dots and symbolic links, a file inside the served directory (or a directory with an index file inside it) is answered with exactly that file's content and length; every other path, whatever it contains, is answered once with not found or an error, and nothing from outside the directory is ever sent.",
  ["inputs"], "every path built from 13 beginnings and up to 6 (thorough 8) symbolic ASCII characters against a directory tree with sibling directories of similar names, links inside, to the inside, to the outside and in a cycle, and index files",
  "Whether a path escapes depends on its exact characters and on the links it meets; tests request one file.", [ASV],
  [("static_files_handler", ASV), ("HTTPContext.respond_file", ASV)], ["HTTP responses"])

U = "streamtasks/utils.py"
p("C38", "Every consumer gets each of its items once, in order, until the end",
  "What a producer (a container read in a thread, or one on the event loop) delivers reaches each consumer that it is meant for once and in order, and after the last item every reader, also one that reads later, is told of the end; a reader never waits for a producer that ended, failed or was closed. A failure is reported to a reader. The producer runs at most once at a time and only while somebody reads, closing ends it at whatever moment, and a reader that gives up and comes back misses nothing.",
  ["schedules"], "every interleaving of up to 3 (thorough 4) items, their destinations and ends with one or two readers; closing and giving up at every step of a run",
  "Items get lost where the end, a failure, a close or a cancelled reader meets an item in progress; tests read a file from beginning to end.", [U, "streamtasks/media/container.py"],
  [("AsyncProducer", U), ("AsyncMPProducer", U), ("AsyncConsumer", U), ("_Demuxer", "streamtasks/media/container.py")], ["items read", "EOFError and failures at readers"])
FN = "streamtasks/system/fntask.py"
p("C43", "A function task calls its function once per message and sends every result",
  "A function made a task has one input per value parameter and one output per result. As soon as every input had a valid message, each further valid message calls the function once, calls never overlapping, with the latest value of every input, the message's timestamp, the task's own state and the configured values, and each result is sent once on its output with that timestamp. Malformed messages change and end nothing; a result that is not of its output's type is left out, one too few or too many ends the task without sending any. Synchronised tasks call in the order of the timestamps. Tasks of one function share nothing.",
  ["inputs", "histories", "schedules"], "eleven functions of all shapes; every history of 4-5 (thorough 6) messages with symbolic values and timestamps; slow and threaded functions; every order of arrival of 2+2 (3+2) synchronised messages",
  "Function tasks are built from signatures; no test runs one with a timestamp, a state, several inputs or without outputs.", [FN],
  [("fntask", FN), ("FnTask", FN)], ["calls of the function", "messages on the output topics"])
UI = "streamtasks/system/tasks/ui/"
p("C44", "Controls send every change once, displays and viewers show the last value",
  "A control sends its value at the start, upon every change once, and again at its repeat interval after the last time: a slider its number, a switch 1 or 0, radio buttons 1 for the selected topic and 0 for every other, a text input its text unless it is blank. A display's value is that of the last valid message (a text display's the texts appended, cut to its maximum length). The value can be read, only a valid one can be set, and after changes, however close, the value sent last and the value each viewer was told last are the value. Viewers that leave disturb nobody. A pulse generator sends one pulse per interval.",
  ["inputs", "histories", "schedules"], "every history of 3 (thorough 4) changes, invalid changes, waits and viewers coming and leaving with symbolic values; a second change or a leaving viewer at every step of a change; every history of 3-5 messages to each display",
  "No test runs these nodes; updates get lost where a change meets one being sent.", [UI + "controlbase.py", UI + "sliderui.py", UI + "switchui.py", UI + "radiobuttonsui.py", UI + "textinput.py", UI + "textdisplay.py", UI + "valuedisplaybar.py", UI + "statusdisplay.py", T + "pulsegenerator.py"],
  [("UIBaseTask", UI + "controlbase.py"), ("UIControlBaseTask.run_other", UI + "controlbase.py"), ("TextDisplayTask.run_other", UI + "textdisplay.py")], ["messages on the output topics", "what viewers are sent", "responses of the node's pages"])
p("C45", "The web gateway shows what is there: pages, paths, topics, dashboards",
  "A request or web socket to a running task's page, a task host's page or a registered path is answered by the application that is there now, which is asked exactly what was asked with the path below its own; after it ended, left, came back elsewhere, was registered again or removed it is refused or answered by the new one, never by the old one. A task's own files are served as they are. A viewer of a topic, by its number or by its number within a topic space, is shown every message and pause in order, whatever values it holds. Dashboards are what was last put, per deployment.",
  ["histories", "inputs"], "every history of 3 (thorough 4) of starting, ending, leaving, coming back, registering and removing; symbolic bodies, payloads and dashboards",
  "Tests ask for one page of one task that never changes.", [S + "task_web.py", S + "task.py", ASGI, ASV, U],
  [("TaskWebBackend", S + "task_web.py"), ("TaskWebPathHandler", S + "task_web.py"), ("ASGIAppRunner", ASGI)], ["responses", "which application is asked what", "what viewers of topics are sent", "stored dashboards"])
p("C46", "The connection manager keeps exactly the listed connections and servers",
  "What was added through the web interface and not removed since is listed in order, once per URL, is saved and is running, also after a restart; nothing else runs, is connected, serves or is announced to the node, and nothing is left when the manager ends. A URL that cannot be used or is listed already is refused without effect; what failed can be removed. Lists show scheme, host, port and path, never credentials or query, and truthfully whether a connection is connected, a server is running and how many are connected to it; viewers hear of every change, also of one that comes while they are told of another.",
  ["histories", "schedules", "inputs"], "every history of 2 to 3 (thorough 3 to 4) of adding, removing, other nodes coming and going, and restarts; changes at every step of a notification; symbolic user, password and query",
  "No test runs the connection manager.", [S + "connection_manager.py", CON],
  [("ConnectionManager", S + "connection_manager.py"), ("UrlData", S + "connection_manager.py")], ["responses of the web interface", "connections and servers that are open", "the stored lists", "what viewers are sent"])
p("C47", "Nodes are connected exactly while both sides want to be",
  "Over unix sockets, TCP and web sockets a reconnector keeps trying until it is stopped, however connecting fails, and connects again after a connection broke, was closed by the server or carried something that is no message. While both sides run, exactly one connection exists and each side's topics are announced to the other; when either is stopped, whatever the moment, it ends, its connections are closed and what came over them is withdrawn. A reconnector knows whether it is connected, a server how many connections it has.",
  ["histories", "schedules", "faults"], "every history of up to 5 (thorough 6) starts, stops, breaks and waits; a break or a stop at every step of connecting; seven ways connecting fails; clients that come and leave at every step",
  "Tests connect once and never lose, refuse or stop a connection at a particular moment.", [CON, "streamtasks/worker.py", NET],
  [("AutoReconnector", CON), ("ServerBase", CON), ("RawConnection", CON)], ["connections that are open", "announcements at both ends", "connected and connection_count"])
MU, AU, TM = "streamtasks/media/util.py", "streamtasks/media/audio.py", T + "media/"
p("C32", "Audio cut into chunks is the same audio with the right times",
  "Blocks of audio that follow each other are handed out as chunks of exactly the configured size that together are the samples in order, none lost, repeated or changed, each as soon as it is complete and with the time of its first sample, wherever the blocks were cut. A chunk with padding has the samples before and after it (silence before the first), and stripping the padding gives the chunk. Smoothed data keeps its length and is unchanged where it is constant.",
  ["inputs"], "2 blocks (thorough 3) of every size up to 4 (5) samples, chunks of 1 to 3, paddings of 0 to 2, four rates, every sample value and start time",
  "Tests do not cut audio; off-by-one cuts and time drift depend on how the blocks fall.", [MU], [("AudioChunker", MU), ("PaddedAudioChunker", MU)], ["chunks and their timestamps"])
p("C33", "A mix is at each time the sum of what its tracks have at that time",
  "What a track's sequencer hands out for a time is what was put in for that time: gaps become silence, overlaps are dropped once, blocks a little early or late are joined or, within the configured ratio, stretched, and jitter neither accumulates nor moves later audio. The mixer's output follows on without gap or repetition, each sample the sum of all tracks at that time, clipped to the sample format and never wrapped, sent as soon as every track that is not paused is there; paused tracks are left out and hold nothing back.",
  ["inputs", "histories"], "3 inserts and pops (thorough 4) of every small size, gap and overlap; 2-3 tracks, 4 messages (5) in every order and offset, pauses at every step; every sample value in four formats",
  "No test mixes; faults lie in loud sums, offsets between tracks and the moment a track pauses.", [MU, TM + "audiomixer.py"], [("AudioSequencer", MU), ("AudioMixerTask.send_next", TM + "audiomixer.py")], ["messages on the mixer's output"])
p("C34", "Frames and packets keep their time through every media task",
  "An encoder gives every frame, once and in order, the tick nearest to its message's time, whatever fractional frame rate is set, however timestamps were rounded to milliseconds and whatever frames are missing; every packet is sent once, decoded before it is shown, with the time of its decoding tick. A decoder and an audio resampler send what comes of each message at that message's time, also when they are late. A packet keeps its times between time bases, to the nearest tick and in order. A video reformatter repeats or leaves out frames to reach the output rate and never loses step. An input container sends every packet of every track once, with or without transcoding, all tracks on one clock.",
  ["inputs", "histories"], "every time up to 2^40 between seven pairs of time bases; seven frame rates, 5 frames with every start and gap, coders that answer at once, late or in another order; 8 pairs of rates; one and two streams",
  "Drift and colliding ticks appear with fractional rates, rounded timestamps and late coders; tests use 30 frames per second for a second.", ["streamtasks/media/packet.py", "streamtasks/media/codec.py", "streamtasks/media/video.py", AU, "streamtasks/media/container.py", TM],
  [("MediaPacket", "streamtasks/media/packet.py"), ("VideoEncoderTask", TM + "videoencoder.py"), ("VideoDecoderTask", TM + "videodecoder.py"), ("VideoReformatterTask", TM + "videoreformatter.py"), ("InputContainerTask", TM + "inputcontainer.py")], ["messages on the output topics", "frames the coder is given"])
p("C40", "Volumes, scales and activity are right for every sample value",
  "A volume scaler passes on every message once, in order, with its time and every sample multiplied by the scale in force when it arrived, clipped to the sample format (unsigned samples about their middle); it returns to the default scale when the scale is paused or invalid. A volume meter reports for every window the root of the mean level, an activity meter the mean change of the pixels, a frequency display the share of each bin in the loudest one; all for every value, silence and the extremes included. Malformed messages end nothing.",
  ["inputs", "histories", "schedules"], "every sample value of six formats, eight scales and every scale up to 1000 at the extremes; histories of 3 (thorough 4) events with a thread that keeps up or lags; every pixel value; symbolic spectra",
  "Wrap-around happens at the extreme values of a format, which no test feeds.", [TM + "audiovolumescaler.py", TM + "audiovolumemeter.py", TM + "videoactivitymeter.py", UI + "audiofrequencydisplay.py", AU],
  [("AudioVolumeScalerTask", TM + "audiovolumescaler.py"), ("AudioVolumeMeterTask", TM + "audiovolumemeter.py"), ("VideoActivityMeterTask", TM + "videoactivitymeter.py"), ("AudioFrequencyDisplayTask", UI + "audiofrequencydisplay.py")], ["messages on the output topics", "the displayed value"])
p("C35", "Malformed media ends no task and changes nothing else",
  "A message on the input of a media task that lacks a field, has one of another type, carries data of a size that does not fit the configured format, or a corrupt or empty packet, is dropped: the task keeps running, and what comes of the proper messages before and after it is what would come of them alone, whatever time the malformed message carries and wherever it falls. A meter of differences misses no more than the differences with that message; a display goes on showing.",
  ["inputs", "histories"], "14 media tasks and the frequency display: histories of 3 (thorough 4) messages, proper or malformed in every way at every place, symbolic times",
  "Tests send proper media; a single frame of the wrong size ended a task's thread.", [TM, "streamtasks/media/codec.py", AU, "streamtasks/media/video.py"],
  [("run_sync", TM + "videoencoder.py"), ("Decoder.decode", "streamtasks/media/codec.py"), ("VideoMixerTask._run_video_track", TM + "videomixer.py"), ("AudioMixerTask.run_track", TM + "audiomixer.py")], ["messages on the output topics", "whether the task runs"])
p("C36", "Video layers are merged, mixed and placed as configured",
  "Merging images blends them in their order: every channel of every pixel is the upper layer's share, given by its alpha, over the result of the layers below, to within one level, opaque and transparent layers exactly; the result is opaque, has the size of the smallest image, and no byte outside the images is read or written, whatever their sizes. The video mixer makes every picture of its background color and the latest frame of each track that is not paused, in track order, stamped with the oldest of their times; every frame is seen before the next frame of its track replaces it, there are no more pictures than frames, and frames of synchronized tracks that are shown together belong together. The video layout places every frame at its offset, cut to the output, and leaves the rest transparent.",
  ["inputs", "histories", "schedules"], "every value of every byte of 1 to 3 (thorough 4) images of 15 (thorough 21) combinations of sizes; histories of 4 (thorough 5) frames, pauses and malformed frames on up to 3 tracks with a thread that keeps up or is late, every timestamp; every placement in frames of up to 3 by 3",
  "A test compares one picture; overruns are silent, and lost frames or wrong layers need particular sizes and histories.", ["streamtasks/media/video_perf_all.cpp", TM + "videomixer.py", TM + "videolayout.py"],
  [("merge_images", "streamtasks/media/video_perf_all.cpp"), ("VideoMixerTask", TM + "videomixer.py"), ("VideoLayoutTask", TM + "videolayout.py")], ["the merged bytes", "messages on the output topics"])
p("C37", "Output containers put all tracks on one clock",
  "An output container writes every packet it takes to its own track, with its data, key-frame mark and difference between showing and decoding, once and in the order of its topic. The time it is written for is its timestamp from the first of all tracks, in the units of the track, or directly after the packet before it; packets of a track never overlap and tracks are interleaved by time. A packet is lost only when it is further behind the other tracks than the allowed desynchronization, or older than them when its track comes back from a pause; tracks that keep to their rates lose nothing. A track that pauses holds no other back, and malformed packets end nothing and change nothing else. The viewer of a video is sent everything its container writes, once and in order, and when the viewer leaves, its container is closed.",
  ["inputs", "histories", "schedules"], "all timestamps, jitter, pauses, orders of arrival and malformed messages of bounded histories",
  "There are no tests of output containers. Stalls and drops depend on which track is ahead by less than a frame of its own units when another one pauses or comes back: relations between timestamps that no sample meets.",
  ["streamtasks/system/tasks/media/outputcontainer.py", "streamtasks/media/container.py", "streamtasks/media/packet.py", "streamtasks/system/tasks/ui/videoviewer.py"],
  [("OutputContainerSynchronizer.wait_for", "streamtasks/system/tasks/media/outputcontainer.py"), ("AVOutputStream.mux", "streamtasks/media/container.py"), ("VideoViewerTask.run", "streamtasks/system/tasks/ui/videoviewer.py")],
  ["muxing into a container that records what it is given", "the web socket of a viewer"])
p("C48", "Microphones, cameras, screens, images and texts are sent as configured",
  "An audio, video or screen input opens one device as configured and sends every block it reads once, unchanged, in order, in the configured format, size and region. Audio and video blocks are stamped with the clock, or with the end of the block before them when the clock shows less, so that they never overlap whatever the clock does; pictures of a screen are taken when they are due at the configured rate, never before, and at once when they are late. When the task is stopped, or the device fails, the task ends, a failure is reported, and the device is closed. An image is sent in its configured format and size at once and then at every interval, stamped with the clock. Every text is drawn once, in order, with its timestamp, as configured; malformed texts change nothing and pauses are passed on.",
  ["inputs", "histories", "schedules"], "every clock, delay, rate, region, moment of stopping or failing, and history of texts within the bounds",
  "Devices are missing in tests. Overlapping blocks need a clock that is behind, devices left open need a failure, and wrong regions an offset.",
  [TM + "audioinput.py", TM + "videoinput.py", TM + "screencapture.py", TM + "imagerenderer.py", TM + "textrenderer.py", TM + "pa_utils.py"],
  [("AudioInputTask.run_sync", TM + "audioinput.py"), ("VideoInputTask.run_sync", TM + "videoinput.py"), ("ScreenCaptureTask.run_sync", TM + "screencapture.py"), ("ImageRendererTask.run", TM + "imagerenderer.py"), ("TextRendererTask.run_sync", TM + "textrenderer.py")],
  ["messages on the output topic", "the calls of the device"])
p("C49", "Speech and chat tasks keep samples, sentences and history in order",
  "Speech enhancement gives a model every sample once, in order, with the samples around it, and what it sends follows on without gaps, with the times of its samples and the loudness of the input: a model that changes nothing but the volume changes nothing, and silence stays silent. Speech recognition gives its model the samples in order in chunks of the configured size and sends every text it recognizes once, in lower case, with the time of its samples. A text that is spoken is split into sentences without losing a word, none longer than allowed; every sentence is spoken once, in order, and begins where the one before it ends. A chat answers every text once, in order, with its time; its model is told the system message, then all that was said except the oldest messages that do not fit its context. Pauses are passed on, malformed messages and data of the wrong size end nothing, and a model that cannot be loaded ends the task with the reason.",
  ["inputs", "histories"], "every timestamp, every length of sentences, every size of messages, answers and context, every text and history within the bounds",
  "The models are missing in tests. Overlapping sentences, silence that becomes noise and forgotten messages need particular lengths and histories.",
  ["streamtasks/system/tasks/inference/smespeechenhancement.py", "streamtasks/system/tasks/inference/waveformspeechenhancement.py", "streamtasks/system/tasks/inference/asrspeechrecognition.py", "streamtasks/system/tasks/inference/fastspeech2tts.py", "streamtasks/system/tasks/inference/llamacppchat.py", "streamtasks/media/util.py"],
  [("SMESpeechEnhancementTask.run_sync", "streamtasks/system/tasks/inference/smespeechenhancement.py"), ("WaveformSpeechEnhancementTask.run_sync", "streamtasks/system/tasks/inference/waveformspeechenhancement.py"), ("ASRSpeechRecognitionTask.run_sync", "streamtasks/system/tasks/inference/asrspeechrecognition.py"), ("FastSpeech2TTSTask.run_sync", "streamtasks/system/tasks/inference/fastspeech2tts.py"), ("LLamaCppChatTask.run_sync", "streamtasks/system/tasks/inference/llamacppchat.py")],
  ["messages on the output topic", "what the models are given"])
