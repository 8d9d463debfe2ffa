"""What each property's check runs.  A job is a scenario plus fixed configuration values;
everything else about a run is drawn from its seed."""

HIST_REAL = ["clink/lib history_db (banks, locks, removals, reaping, compaction, clearing, id remapping)", "clink/core (settings, os, path, str, globber)", "readline history list"]
SIM_OS = ["Windows file system, file sharing and byte range locks", "Windows processes, threads and their scheduler", "clocks", "stdio on top of the simulated files"]


def hist(profile, weight=1, **kv):
    return {"scenario": "history", "weight": weight, "set": dict(kv, profile=profile)}

def sett(profile, weight=1, **kv):
    return {"scenario": "settings", "weight": weight, "set": dict(kv, profile=profile)}


def regi(profile, mode):
    return {"scenario": "registry", "weight": 1, "set": {"profile": profile, "mode": mode}}


SIM_REG = ["Windows registry (hives, 32-bit view, access rights)", "processes and their exit", "stdio"]
SET_REAL = ["clink/core settings (types, loading, saving, defaults, migration, overlays)", "clink/core (os, path, str, ini parser)"]

SESS_REAL = ["clink host (line editing, prompt, paste, doskey, errorlevel capture)", "terminal input and output, display_readline", "readline", "Lua engine, Lua API and clink's core scripts", "history_db, settings", "coroutine and popenyield threads, recognizer thread"]
SESS_STUB = SIM_OS + ["console (input records, control events, screen with VT processing)", "cmd.exe's reading and running of lines (a model that calls clink's hooks as cmd.exe does)", "the commands that are run", "clipboard"]


def sess(focus, quick, rule, technique=None, jobs=None):
    return {"quick": quick, "jobs": [{"scenario": "session", "weight": w, "set": dict(kv, focus=f)} for f, w, kv in jobs or [(focus, 1, {})]], "rule": rule, "real": SESS_REAL, "stub": SESS_STUB,
            "technique": technique or "seeded schedules and input timing of a whole session, compared with a reference model of the session"}


CHECKS = {
    "H01": {
        "quick": 60,
        "jobs": [hist(0, 3, io=0), hist(2, 1, io=0), hist(3, 1, io=0), hist(5, 2, io=0), hist(4, 1, io=0)],
        "rule": "A run is 2 to 4 session slots, each a sequence of processes, adding, listing, compacting, deleting and clearing history lines concurrently with random preemption, stalls and process crashes; the fate of every line is decided at the end.",
        "real": HIST_REAL, "stub": SIM_OS,
    },
    "H02": {
        "quick": 60,
        "jobs": [hist(1, 3, io=0), hist(6, 1, io=0), hist(5, 2, io=0), hist(3, 1, io=0), hist(7, 1, io=0)],
        "rule": "A run is 2 to 4 session slots, each a sequence of processes; lines get deleted by position, by text and by `history delete`, and the history gets cleared and compacted, concurrently with other sessions, with random preemption, stalls and crashes.",
        "real": HIST_REAL, "stub": SIM_OS,
    },
    "H04": {
        "quick": 60,
        "jobs": [hist(p, 1, io=1, fault_api=a) for p, a in ((0, "write"), (5, "write"), (0, "open"), (5, "read"), (2, "read"), (5, "delete"), (1, "LockFileEx"), (2, "LockFileEx"))],
        "rule": "As for H01, but instead of crashes 1 to 4 system calls on history files fail: a write (completely or after a part of it), a read, an open, a delete or a lock.",
        "real": HIST_REAL, "stub": SIM_OS,
    },
    "H03": {
        "quick": 60, "measure": "states",
        "jobs": [{"scenario": "histmodel"}],
        "rule": "A run is 5 to 40 history operations by 1 to 4 sessions (and `clink history` command lines), taking turns, on generated settings and pre-existing history files, compared with the reference model after every operation.",
        "real": HIST_REAL + ["clink history command line"], "stub": SIM_OS,
        "technique": "seeded operation histories with process kills, compared step by step with an executable reference model",
    },
    "S01": {
        "quick": 50,
        "jobs": [sett(1, 3), sett(2, 2)] + [sett(3, 1, fault_api=a) for a in ("write", "open", "read", "move", "fclose", "delete")],
        "rule": "A run is 1 to 4 actors performing rounds of concurrent operations (one-shot changes, sessions changing settings and loading themes, readers) with random preemption and process crashes, or 1 to 4 failing system calls on the settings file; all observations have to fit some order of complete changes.",
        "real": SET_REAL, "stub": SIM_OS,
    },
    "S02": {
        "quick": 50, "measure": "states",
        "jobs": [sett(0, 1), sett(4, 1)],
        "rule": "A run is 1 to 4 actors taking turns (one-shot changes, sessions with scripts, themes, and in half of the runs the real `clink set` and Lua functions) on generated settings, defaults and old settings, compared with a reference model of the settings.",
        "real": SET_REAL + ["clink set command line", "Lua settings functions", "Lua scripts"], "stub": SIM_OS,
        "technique": "seeded operation histories over simulated processes, compared step by step with an executable reference model",
    },
    "A01": {
        "quick": 25, "measure": "states",
        "jobs": [regi(0, 0), regi(0, 1), regi(0, 2)],
        "rule": "A run is 1 to 8 `clink autorun` commands on generated AutoRun values of several users, undisturbed, with processes dying at registry calls, or with 1 to 4 failing registry calls; after each command the values are compared with what they were.",
        "real": ["clink autorun command line", "clink/core str"], "stub": SIM_REG,
        "technique": "seeded command histories with process kills and failing registry calls, compared step by step with a reference model of how cmd.exe splits AutoRun",
    },
    "A02": {
        "quick": 20, "measure": "states",
        "jobs": [regi(1, 0), regi(1, 1), regi(1, 2)],
        "rule": "A run is 1 to 8 installscripts and uninstallscripts commands on a generated list, undisturbed, with processes dying at registry calls, or with 1 to 4 failing registry calls; the list is compared with a reference model after each command.",
        "real": ["clink installscripts and uninstallscripts command lines", "clink/app app_context registry access"], "stub": SIM_REG,
        "technique": "seeded command histories with process kills and failing registry calls, compared step by step with a reference model",
    },
    "E01": sess(1, 45, "A run is one cmd.exe session: 1 to 10 lines of keys and pastes, typed at a generated pace while commands run, prompts are prepared and threads stall, in part of the runs with failing reads, writes, opens and locks of clink's files; the lines and answers that cmd.exe and its commands are given are compared with the reference editor."),
    "E02": sess(2, 45, "A run is as for E01, without failing calls; whenever the session has dealt with all input, the simulated screen and cursor are compared with the transcript of what was printed and typed.", "the simulated screen compared with a reference screen at every pause"),
    "E03": sess(3, 45, "A run is as for E01, with Ctrl-C and Ctrl-Break arriving at generated times before, while and after lines are typed, pasted and run.", "seeded arrival times of console control events; oracle over the lines that cmd.exe was given"),
    "E04": sess(4, 40, "A run is as for E01, with commands that set errorlevel and a prompt filter that reports os.geterrorlevel(); the error levels seen and the visible traces of how clink obtains them are compared with the reference session."),
    "H05": sess(5, 45, "A run is as for E01, with lines repeated, recalled and edited, under each duplicate handling mode; the recorded history is compared with the accepted lines after the session has ended."),
    "E05": sess(7, 40, "A run is a session in which most lines are directory shortcuts, `cd` commands, drives, macros of them and near misses, on two drives, often with scripts that change directory in their callbacks; after each line cmd.exe's current directory is compared with that of the reference session.", jobs=[(7, 3, {}), (8, 1, {"dirs": 1})]),
    "L02": sess(8, 45, "A run is a session with generated scripts: up to 3 onfilterinput handlers (replacing, splitting, dropping, stopping, failing), 2 onhistory handlers, onprovideline, and functions bound to keys; every call of a handler, the lines cmd.exe gets and the history are compared with the reference session."),
    "T01": sess(9, 40, "A run is a session with generated scripts that ask the terminal things (in functions of keys, event handlers, prompt filters and coroutines) while lines are typed; answers of four kinds come at once, after up to half of the time the request waits, or not at all. Each request's result, each line and the screen are compared with the terminal's answers and the reference session."),
    "L01": sess(6, 60, "A run is a session with generated scripts that start coroutines running commands (io.popenyield, os.execute, prompt coroutines) of various duration and amount of output, while lines are typed and run; outputs, results and completion are checked, and the prompt once the session has been idle."),
}
