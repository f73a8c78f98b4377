#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

prop("C01","Message queue loses, duplicates and reorders nothing",
 "For any number of producers and consumers and any interleaving, including spurious wakeups, every item pushed to the shared queue is popped at most once, none disappears, and items leave in the order in which their pushes took effect; the contents are only ever touched under mutual exclusion. A blocking pop returns only with an item and a push always makes an item available to a waiting consumer; a non-blocking pop returns false exactly when the queue is empty and then leaves its output untouched. The reported size and emptiness are those of the queue at one instant.",
 ["schedules","histories"],"all thread interleavings of push / wait_and_pop / try_and_pop / empty / size, spurious and stolen wakeups, all item values and queue lengths",
 "the unit tests only use the queue through one producer/consumer schedule; lost wakeups, spurious wakeups and races appear on schedules no test forces",
 ["src/g3log/shared_queue.hpp"],
 [("mutex-protected FIFO with condition variable and re-checked predicate","shared_queue<T>::push / wait_and_pop / try_and_pop")],
 [("queue_","pending items, oldest first","shared_queue.hpp"),("m_","monitor lock","shared_queue.hpp")],["push","wait_and_pop","try_and_pop","empty","size"])
prop("C02","Background worker runs every task once, in order, and drains on destruction",
 "Every task submitted to the background worker is executed exactly once, in submission order, one at a time, on the worker's own single thread, including a task submitted from inside another task. Destroying the worker first executes every task submitted before the destruction, then stops and joins the thread. No task runs before the worker is fully constructed.",
 ["schedules","histories"],"all numbers of submitting threads, submission histories and interleavings with the worker thread and the destructor",
 "tests submit a few tasks on the schedules the OS happens to give; ordering and drain must hold for every interleaving",
 ["src/g3log/active.hpp","src/g3log/shared_queue.hpp","src/g3log/moveoncopy.hpp"],
 [("run loop popping one callback at a time until the stop message sent by the destructor","kjellkod::Active::run, ~Active, send, createActive"),("move-on-copy wrapper hands the single packaged task along","g3::MoveOnCopy")],
 [("done_","stop flag, touched only by the worker thread","active.hpp"),("mq_","pending tasks","active.hpp")],["Active::send","Active::createActive","~Active"])
prop("C03","Each logged message reaches every sink exactly once, in order",
 "Once logging is initialized, every non-fatal log message accepted by the worker is delivered exactly once to each sink registered when the message is processed, with the same content for all sinks whatever any of them does with its copy, and each sink receives messages in the order they were accepted. A sink's receiving call runs on that sink's own background thread only: never on two threads at once, on the logging thread or on another sink's thread. With no sink registered the message text is printed on standard error instead of being silently dropped.",
 ["schedules","inputs","histories"],"all message sequences, numbers of logging threads, numbers and kinds of sinks, and interleavings",
 "tests use one to a few sinks and check counts on observed schedules; per-sink exactly-once and order is a whole-history statement",
 ["src/logworker.cpp","src/g3log/logworker.hpp","src/g3log/sink.hpp","src/g3log/active.hpp","src/g3log/shared_queue.hpp","src/g3log/moveoncopy.hpp"],
 [("fan-out of one copy per sink on the worker thread","LogWorkerImpl::bgSave"),("each sink forwards on its own active object","internal::Sink<T>::send"),("asynchronous hand-over","LogWorker::save")],
 [("_sinks","registered sinks","logworker.hpp")],["LogWorker::save","sink receiving call","stderr"])
prop("C04","Adding and removing sinks is synchronous and exact",
 "When adding a sink returns, the sink receives every message saved afterwards and none accepted earlier; when removing a sink returns, it receives no message saved afterwards, everything saved before is still delivered to it, exactly that sink and no other was removed, and g3log's ownership of it is released. Removing all sinks does the same for all; removing an unknown, already removed or null handle changes nothing. Destroying the log worker delivers everything saved before to the sinks registered and then destroys those sinks.",
 ["histories","schedules"],"all histories of add / remove / remove-all / save / destroy over any number of sinks, from any thread",
 "tests cover a handful of fixed histories with few sinks",
 ["src/g3log/logworker.hpp","src/logworker.cpp","src/g3log/sink.hpp","src/g3log/sinkhandle.hpp"],
 [("registration executed on the worker thread and waited for","LogWorker::addWrappedSink, removeSink, removeAllSinks"),("ordered teardown","LogWorker::~LogWorker, LogWorkerImpl member order")],
 [("_sinks","registered sinks, only touched by the worker thread","logworker.hpp")],["addSink","removeSink","removeAllSinks","~LogWorker"])
prop("C05","Calls through a sink handle run once, in order, and deliver their result",
 "A call through a sink handle is executed exactly once, with the given arguments, on that sink's own background thread, ordered with the messages and calls submitted to that sink before and after it, and the returned future yields its result or the exception it threw. If the sink is gone, the future holds a bad-weak-pointer error and nothing is executed; the handle itself never keeps a sink alive. Asking a non-existing background worker to run a task yields a future with an error instead of crashing.",
 ["histories","schedules","inputs"],"all call / message interleavings, argument and result values including exceptions and void, and sink lifetimes",
 "tests try a few calls; lifetime races and exceptional results are barely sampled",
 ["src/g3log/sinkhandle.hpp","src/g3log/sink.hpp","src/g3log/future.hpp","src/g3log/moveoncopy.hpp"],
 [("packaged task moved onto the sink's queue","g3::spawn_task, Sink<T>::async"),("weak ownership","SinkHandle<T>::call, sink")],
 [("_sink","weak reference to the sink","sinkhandle.hpp")],["SinkHandle::call","SinkHandle::sink","spawn_task"])
prop("C06","A fatal event flushes all earlier messages before the process dies",
 "When a fatal log, failed contract or caught fatal signal occurs while logging is initialized, every message accepted before it is delivered to all registered sinks before it, the fatal message is the last one each sink receives, and every sink has finished processing and has been released before the process terminates. The delivered fatal message carries the original text plus the fatal level and reason, and its full text also appears on standard error. No message logged after the fatal event has begun processing is delivered.",
 ["crash_points","schedules","histories"],"all message histories before the fatal event, any number of sinks, any kind of fatal event and thread raising it",
 "a process-killing path can be taken once per test process; tests mock the fatal handler",
 ["src/logworker.cpp","src/g3log.cpp","src/crashhandler_unix.cpp"],
 [("shutdown, send to all sinks, clear (drain), then exit","LogWorkerImpl::bgFatal"),("queueing behind earlier messages","LogWorker::fatal"),("fatal routing","saveMessage, saveFatalMessage, fatalCall, pushFatalMessageToLogger")],
 [("_sinks","registered sinks","logworker.hpp"),("g_logger_instance","active worker or null","g3log.cpp")],["sink receiving call","stderr","process exit"])
prop("C07","The process dies of the originating signal; the failing thread never resumes",
 "After a fatal event the process terminates with the originating signal (SIGABRT for fatal logs and failed contracts), after every signal handler that g3log replaced has been put back to what it was; if the signal does not terminate it, it exits with that signal's number. The thread that raised the event never continues past it (it stays blocked until the process has ended or, if the signal did not end it, is exiting), and of several fatal signals only the first is reported while later ones wait. A fatal event while no logger is active prints its reason and text on standard error and still terminates the process that way.",
 ["crash_points","schedules","inputs","fault_sequences"],"all fatal signals, levels, previously installed handlers, concurrent fatal events and logger states",
 "each case kills the process; the existing tests intercept the fatal call before this code runs",
 ["src/crashhandler_unix.cpp","src/g3log.cpp","src/logworker.cpp"],
 [("restore saved actions then raise, else exit","internal::exitWithDefaultSignalHandler, restoreSignalHandler"),("first-signal gate","signalHandler / shouldDoExit"),("block until dead","pushFatalMessageToLogger, shouldBlockForFatalHandling")],
 [("gSavedSigActions","replaced dispositions","crashhandler_unix.cpp"),("gBlockForFatal","whether failing threads stay blocked","crashhandler_unix.cpp")],["wait status of the process","sigaction dispositions"])
prop("C08","Signal handler installation never loses the application's own handlers",
 "After any history of installing, overriding and restoring crash handling, exactly the signals of the currently configured set are handled by g3log, and every other signal g3log ever touched is back to the disposition the application had for it. Restoring a signal puts the application's own disposition back, at most once, and restoring a signal that is not currently replaced changes nothing. Default crash handling covers abort, floating point, illegal instruction, segmentation and termination signals.",
 ["histories","inputs"],"all sequences of install / override (any signal set) / restore / restore-default with arbitrary prior dispositions and failing sigaction calls",
 "tests check one or two override sequences on SIGTERM/SIGINT only",
 ["src/crashhandler_unix.cpp"],
 [("save on install, restore and forget","installSignalHandler, restoreSignalHandler, overrideSetupSignals, restoreFatalHandlingToDefault")],
 [("gSignals","configured signal set","crashhandler_unix.cpp"),("gSavedSigActions","application dispositions of replaced signals","crashhandler_unix.cpp")],["sigaction(2) dispositions"])
prop("C09","Pre-fatal hook runs exactly once, before the fatal message is forwarded",
 "The hook set by the user runs exactly once, on the thread of the first fatal event, before that event's message is handed to the fatal handler; initializing logging resets it to do nothing. A fatal event raised while the hook runs does not run it again, and its message is marked as a recursive crash and carries the stack trace of the first fatal event (the only fatal event since initialization is not marked). A custom fatal handler, when set, receives every fatal message exactly once, complete with text, stack trace and signal, instead of the default handling.",
 ["histories","inputs","crash_points"],"all hooks (including ones that crash), all handlers, all sequences of fatal events",
 "tests run one recursive case with a mock; ordering and once-only are history properties",
 ["src/g3log.cpp"],
 [("swap hook for no-op before calling it; recursion counter; first stack trace kept","internal::saveFatalMessage, setFatalPreLoggingHook, setFatalExitHandler, fatalCall")],
 [("g_fatal_pre_logging_hook","current hook","g3log.cpp"),("g_fatal_hook_recursive_counter","fatal events since initialization","g3log.cpp")],["hook invocations","fatal handler argument"])
prop("C10","Printf-style capture keeps the whole text or says it was truncated",
 "A printf-style log call stores exactly the formatted text when it is shorter than the message limit; when it is not, it stores the first limit-minus-one characters followed by the truncation mark, so text is never lost silently. If formatting fails, the message says so and contains the format string. It never reads or writes outside its buffer.",
 ["inputs","configurations"],"all format strings and arguments, all resulting lengths including exactly at the limit",
 "tests never format text near the 2048 limit",
 ["src/logcapture.cpp"],[("vsnprintf into a bounded buffer with explicit truncation mark","LogCapture::capturef")],[],["text delivered to sinks"])
prop("C11","Text, level and call-site data reach the message unaltered",
 "A log statement produces one message whose text is everything streamed, and whose level, file (the base name; the full path is kept too), line, function and, for contracts, expression text are those of the statement. A message is treated as fatal exactly when its level's value is at least that of FATAL, and then also carries the stack trace. The strings are copied, so the message stays intact after the caller's buffers are gone.",
 ["inputs","histories"],"all texts, file paths, lines, functions, levels (built-in and custom values) and expressions",
 "tests use a few literal statements in one file",
 ["src/g3log.cpp","src/logcapture.cpp","src/logmessage.cpp","src/loglevels.cpp","src/g3log/logcapture.hpp","src/g3log/g3log.hpp"],
 [("capture object forwards its fields on destruction","LogCapture constructors / destructor"),("explicit copies","internal::saveMessage"),("constructor","LogMessage::LogMessage, splitFileName"),("fatal test","internal::wasFatal")],[],["LogMessage fields at the sink or fatal handler"])
prop("C12","Copying, moving and assigning messages preserves every attribute",
 "Copy construction, move construction, assignment, swapping, conversion to a fatal message and back, and hand-over through the move-on-copy wrapper all yield a message with every attribute of the source: timestamp, thread, file, full path, line, function, level, expression, text and chosen formatting (and the signal of a fatal message). Modifying a copy never changes the original. Level objects copy, swap, assign and compare by both value and text.",
 ["inputs","histories"],"all attribute values and all compositions of copy / move / assign / swap / conversion",
 "tests copy one message and compare its rendered text only",
 ["src/logmessage.cpp","src/g3log/logmessage.hpp","src/g3log/moveoncopy.hpp","src/g3log/loglevels.hpp"],
 [("member-wise copy / move / swap","LogMessage, FatalMessage, LEVELS special members"),("MoveOnCopy","moveoncopy.hpp")],[],["public data of LogMessage / FatalMessage / LEVELS"])
prop("C13","Rendering contains all the message's data in the documented layout",
 "Rendering a normal message yields the details (timestamp, level, file, function, line, as the selected formatting function gives them) followed by the text and a newline; fatal logs, failed contracts (with the expression), fatal signals and custom fatal levels each yield their documented banner plus details and text. Which layout is used depends only on the level value. A custom details function given for rendering is the one used, the full details variant additionally shows the thread id, and rendering does not alter the message's data.",
 ["inputs"],"all levels and values, texts, attributes and formatting functions",
 "tests compare a few rendered examples",
 ["src/logmessage.cpp","src/g3log/logmessage.hpp"],
 [("toString dispatch and helpers","LogMessage::toString, normalToString, fatal*ToString, *LogDetailsToString")],[],["LogMessage::toString"])
prop("C14","Fractional seconds are exact and zero padded",
 "For every time point, before or after 1970, the millisecond, microsecond and nanosecond fraction renders as exactly 3, 6 or 9 digits with leading zeros, equal to the elapsed part of the current second truncated to that unit. The seconds shown next to it are those of the same instant. No time point makes rendering fail.",
 ["inputs"],"all representable time points and all fraction widths",
 "tests use a few fixed durations; boundaries and negative time points are not reached",
 ["src/time.cpp","src/g3log/time.hpp"],[("fraction extraction and padding","internal::to_string(time_point, Fractional)"),("time conversion","localtime_formatted")],[],["localtime_formatted output"])
prop("C15","Time format strings are substituted exactly",
 "In a time format, every %f, %f3, %f6 and %f9 is replaced by the nanosecond, millisecond, microsecond or nanosecond fraction, in one left-to-right pass, and every other character reaches the standard formatter unchanged, wherever and however often the specifiers occur, including at the end of the format. The rest follows strftime for the local time of that instant; if the result is empty or does not fit the buffer, the substituted format itself is returned. A message's timestamp renders its own creation time, converted to system time consistently for all messages.",
 ["inputs"],"all format strings and time points",
 "tests use a few formats with the specifiers in the middle",
 ["src/time.cpp","src/logmessage.cpp","src/g3log/time.hpp"],[("scan-and-replace loop","internal::localtime_formatted_fractions, getFractional"),("bounded strftime","put_time"),("clock conversion","to_system_time, LogMessage::timestamp")],[],["localtime_formatted, put_time, LogMessage::timestamp output"])
prop("C16","The file sink writes every message once, in order, and flushes on time",
 "While its file is not changed, a sink's log file contains the header once, at its start, and then the rendering of every message received, exactly once and in order, followed by the shutdown line when the sink is destroyed; nothing buffered is lost. At least after every N-th message (N the configured interval) everything received so far has been written and flushed. Changing the log file keeps every already received message in the old or new file exactly once and in order, leaves the current file in use and reports failure if the new one cannot be opened, and never erases what has already been logged; overridden header and details formatting are honoured.",
 ["histories","inputs","fault_sequences"],"all sequences of writes, log file changes (successful or failing), overrides and destruction, all intervals and texts",
 "tests write a few messages and change file a few times in one directory",
 ["src/filesink.cpp","src/filesinkhelper.ipp"],[("buffer with periodic flush","FileSink::fileWrite"),("switch over","FileSink::changeLogFile"),("final flush","FileSink::~FileSink")],
 [("_write_buffer","received, not yet written","filesink.hpp"),("_write_counter","messages received","filesink.hpp")],["log file contents","returned file name"])
prop("C17","Log file names and locations are built safely",
 "The log file name is the sanitized prefix, the logger id if any, and the local creation time (prefix.id.YYYYMMDD-hhmmss.log), where sanitizing removes white space, slashes, back-slashes, dots and colons and keeps every other character; a prefix that is empty or still contains an illegal character is refused. A new sink's file lands directly in the given directory: back-slashes act as separators, trailing separators and blanks are dropped, exactly one separator is placed between directory and name, an empty directory means the current one and the root directory stays the root. If it cannot be created there the current directory is used instead, and the sink always reports the path actually in use.",
 ["inputs","fault_sequences"],"all prefixes, directories, ids and file-open outcomes",
 "tests check a few literal prefixes and paths",
 ["src/filesinkhelper.ipp","src/filesink.cpp"],[("sanitizers","prefixSanityFix, isValidFilename, pathSanityFix, createLogFileName"),("open with fallback","FileSink::FileSink, createLogFile, openLogFile")],[],["FileSink::fileName, directory contents"])
prop("C18","Dynamic level control affects exactly the levels it names",
 "With dynamic levels, enabling, disabling or setting a registered level changes that level's status only and does nothing for an unregistered one; setting the highest level enables exactly the registered levels at or above it and disables all below, or does nothing if it is unregistered; enabling or disabling all affects exactly the registered levels; adding registers or replaces one level; reset returns to the four defaults, all enabled. Status, snapshot and text listing report precisely the current registry, and asking whether a level is enabled or what its status is never changes anything, an unregistered level being not enabled. Without dynamic levels every level is enabled.",
 ["histories","inputs","configurations"],"all sequences of level operations over all level values and texts, both build configurations",
 "tests run a few fixed sequences over the default levels and one custom level",
 ["src/loglevels.cpp","src/g3log/loglevels.hpp","src/g3log/atomicbool.hpp"],[("registry map from value to level and status","g3::log_levels::*, only_change_at_initialization::*, logLevel")],
 [("g_log_levels","registered levels and their status","loglevels.cpp")],["logLevel, getStatus, getAll, to_string"])
prop("C19","Conditional logging logs exactly when it should and is free when not",
 "A log statement (stream or printf style, plain or conditional) produces exactly one message if its level is enabled and its condition, if any, is true, and otherwise produces nothing and does not evaluate the streamed or formatted arguments. The condition is evaluated at most once, and only if the level is enabled. A contract check evaluates its expression exactly once and raises a fatal event exactly when the expression is false in the sense of a C++ condition, for every type usable as one.",
 ["inputs","programs","configurations"],"all levels, registry states, conditions and argument expressions (including ones with side effects), all macro forms",
 "tests use boolean literals and side-effect free arguments",
 ["src/g3log/g3log.hpp","src/loglevels.cpp"],[("if/else macros guarding a temporary capture object","LOG, LOG_IF, LOGF, LOGF_IF, CHECK, CHECKF, CHECK_F")],[],["messages produced, side effects of arguments"])
prop("C20","Logger start-up and shut-down never lose or misdirect messages",
 "Before logging is initialized the first message is kept (and printed on standard error) and handed exactly once to the first worker that is initialized, marked as logged too early, and later ones are ignored; after initialization every message goes to the current worker; after shutdown messages are ignored without touching the old worker. Initializing twice without shutdown, or with no worker, terminates the process with an error. Shutting down on behalf of a worker affects logging only if that worker is the active one, and logging concurrently with initialization or shutdown never uses a missing worker.",
 ["schedules","histories"],"all histories and interleavings of log, initialize, shutdown and worker destruction on any number of threads",
 "each process can go through the pre-initialization phase only once and tests do not race shutdown with logging",
 ["src/g3log.cpp","src/logworker.cpp"],[("active worker pointer, once-only first message","initializeLogging, shutDownLogging, shutDownLoggingForActiveOnly, pushMessageToLogger")],
 [("g_logger_instance","active worker or null","g3log.cpp"),("g_first_uninitialized_msg","kept early message","g3log.cpp")],["messages at sinks, stderr, exit status"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
