"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py writes both."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), level_note=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": observe, "hook_needed": None},
              "_note": level_note})


HDB = "clink/lib/src/history_db.cpp"

prop("H01", "Recorded history lines are never lost, altered or duplicated",
     "Every command line that was successfully recorded in the history, and that nobody deletes or clears and no limit drops, is in the history exactly as it was recorded, once per recording (as the duplicate mode says), with its own time stamp and in the order of recording, after any number of concurrent sessions have run, ended or been killed. Nothing that nobody recorded ever appears in it, and no session waits for another one forever.",
     ["schedules", "crash_points", "histories", "configurations"],
     "All interleavings of any number of sessions, their starts and exits, and the `clink history` commands, with processes dying at any point, for all history settings.",
     "The tests run sessions one after another in one process; the guarantee is about concurrent processes and about processes dying between any two file operations.",
     [HDB, "clink/lib/src/history_db.h", "clink/app/src/loader/history.cpp"],
     [("locks on the bank files, master before session", HDB + " bank_lock, get_bank"), ("alive file that tells running sessions from dead ones", HDB + " initialise, reap"),
      ("compaction under the master lock", HDB + " rewrite_master_bank, compact"), ("concurrency tag", HDB + " concurrency_tag")],
     ["the history as listed by a later session", "the history as seen by the running sessions"],
     [("master bank", "all sessions' history", HDB), ("session bank", "one running session's own history", HDB), ("removals file", "deletions not yet applied to the master", HDB)])
prop("H02", "Deleting history affects exactly the lines that were asked for",
     "A history line that a session deletes (by its position, by its text, or with the `history delete` command), or that it sees when it clears the history, is gone from then on, for every session that shares the history, and stays gone after sessions end, the history is compacted, or processes die. No other line is affected by it, whatever other sessions record, delete, clear or compact in the meantime.",
     ["schedules", "crash_points", "histories", "configurations"],
     "All interleavings of deletions, clears, compactions and recordings by any number of sessions, with processes dying at any point, for all history settings.",
     "Deletions are recorded as file offsets and applied later by other processes; the tests do not delete while another session compacts, clears or exits.",
     [HDB, "clink/app/src/loader/history.cpp"],
     [("deferred removals file tied to a concurrency tag", HDB + " apply_removals, write_lock::remove"), ("remapping of line ids after compaction", HDB + " compact, remap_removals"), ("loaded list index to line id", HDB + " remove(int32, const char*)")],
     ["the history as listed by a later session", "the history as seen by the running sessions"],
     [("removals file", "offsets of deleted master lines", HDB)])
prop("H04", "I/O errors do not destroy recorded history",
     "When a system call on a history file fails (a full disk, a failed or partial write, a failed read, open, delete or lock), lines that were recorded before and lines that are reported as recorded later are still in the history, unaltered, once the errors stop; no partial line appears as a line of its own merged with another one. At most the effect of the operation that failed is missing.",
     ["fault_sequences", "schedules", "histories"],
     "All sequences of failing calls at any points in all interleavings of sessions.",
     "No test makes a system call fail.",
     [HDB], [("checked reads and writes; session files kept until copied", HDB + " write_lock::append, reap, rewrite_master_bank")],
     ["the history as listed by a later session"])

prop("H03", "History operations do exactly what they are documented to do",
     "Whatever sequence of history operations sessions perform one after another (adding lines, deleting, listing, clearing, compacting, expanding, through the session or through the `clink history` command), every listing and every result equals that of the reference model of the documented behaviour. That covers order, duplicate modes, ignore_space, line limits, time stamps, the number of lines listed, exit codes, sharing between sessions and the lines a session sees after a reload, for histories written by older versions too.",
     ["histories", "inputs", "configurations"],
     "All sequences of operations by any number of sessions, for all history settings and any pre-existing history files.",
     "The tests check a few fixed sequences; the state space is the history of every session and every deferred deletion.",
     [HDB, "clink/app/src/loader/history.cpp"],
     [("banks and line ids", HDB + " read_line_iter, line_id"), ("deferred deletions", HDB + " removals"), ("history command", "clink/app/src/loader/history.cpp history")],
     ["output and exit code of `clink history`", "the loaded history list", "results of adding, finding and removing"])

SET = "clink/core/src/settings.cpp"
prop("S01", "Saved settings survive other processes, crashes and I/O errors",
     "A setting that was changed successfully (with `clink set`, from Lua, or by a theme) has that value in every process started later, until someone changes it again; a process that dies, or a read, write or rename that fails, at any point of a change leaves either all the old or all the new settings behind, including those of scripts that are not loaded. When several processes change settings at the same time each change takes effect completely or not at all, and nothing except a change made at that very moment by another process can be undone by it. A change that is reported as successful is in the settings file.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "All interleavings of any number of processes that read or change settings, with processes dying and file operations failing at any point.",
     "The tests load and save settings in one process without failures; what is at stake is a file shared by all sessions.",
     [SET, "clink/app/src/loader/set.cpp", "clink/lua/src/settings_api.cpp"],
     [("load, then save everything to a temporary file that replaces the settings file", SET + " load_internal, save_internal"), ("settings not declared in this process are kept", SET + " get_loaded_map"), ("changes by a session are made to a fresh copy of the file", SET + " sandboxed_set_setting, sandboxed_overlay")],
     ["the settings as later processes see them", "the result of the change"], [("settings file", "the values that differ from the defaults", SET)])
prop("S02", "Settings have exactly the value they were given",
     "A value is accepted exactly when it is valid for the type of the setting, and then the setting has that value in its documented canonical form, in the session that set it and in every later one; refused values change nothing. Clearing a setting gives it its default, which a distribution can override and which settings of old versions are migrated to; loading a theme or changing one setting changes no other one; `clink set` lists every setting with its current value.",
     ["inputs", "histories", "configurations"],
     "All sequences of changes through the command line, Lua and themes, for all values, any sets of scripts loaded in the various processes, and any pre-existing settings and defaults.",
     "The tests set each type of setting a few times in one process; persistence depends on which scripts each of the processes has loaded and on everything done before.",
     [SET, "clink/app/src/loader/set.cpp", "clink/lua/src/settings_api.cpp"],
     [("parsing and canonical form per type", SET + " setting::parse, setting_color, setting_enum"), ("deferred values of settings declared later", SET + " deferred_load"), ("default settings and migration", SET + " load_custom_defaults, migrate_setting"), ("`clink set` command", "clink/app/src/loader/set.cpp set")],
     ["the settings as later processes see them", "output and exit code of `clink set`", "settings.get"])

ARF = "clink/app/src/loader/autorun.cpp"
prop("A01", "Managing cmd.exe's AutoRun never damages the commands of other programs",
     "Whatever AutoRun contains, `clink autorun install` and `uninstall` leave the commands of other programs in it exactly as they were and in their order, add or remove only clink's own command, and do so only for the users that were asked for. After a successful install AutoRun starts clink exactly once, last, with the given arguments; after a successful uninstall not at all. This holds when the process dies or a registry call fails at any point: AutoRun then has its old or its new content, and success is reported (exit code 0) only for a change that was made.",
     ["inputs", "crash_points", "fault_sequences", "histories"],
     "All contents of the AutoRun values of all users, all sequences of autorun commands with any arguments, and all points at which the process dies or registry calls fail.",
     "No test runs the autorun command: the registry is shared with cmd.exe and other programs, and a wrong edit breaks every command prompt of the user.",
     [ARF], [("finding clink's command", ARF + " find_clink_entry"), ("removing and adding it", ARF + " uninstall_autorun_from_key, install_autorun"), ("reading the value", ARF + " get_value")],
     ["the AutoRun registry values", "output and exit code of `clink autorun`"], [("AutoRun", "the commands cmd.exe runs when it starts", "registry")])
ISF = "clink/app/src/loader/installscripts.cpp"
prop("A02", "Installed script paths survive every change of the others",
     "`clink installscripts` and `uninstallscripts` add or remove exactly the path they are given (compared without regard to case), keep all other installed paths unchanged and in order, and report success exactly when they did so. Listing shows all installed paths, and uninstalling all of them shows and removes all. When the process dies or a registry call fails at any point the list is either the old or the new one.",
     ["inputs", "crash_points", "fault_sequences", "histories"],
     "All sequences of these commands with any paths, all pre-existing lists, and all points at which the process dies or registry calls fail.",
     "No test runs these commands, and none makes a registry call fail.",
     [ISF, "clink/app/src/utils/app_context.cpp"], [("editing the list", ISF + " change_value, uninstallscripts"), ("reading and writing it", "clink/app/src/utils/app_context.cpp get_installed_scripts, set_installed_scripts")],
     ["the installed scripts in the registry", "output and exit code of the commands"], [("InstalledScripts", "semicolon delimited list of paths", "registry")])

HC = "clink/app/src/host/host_cmd.cpp"
HO = "clink/app/src/host/host.cpp"
DR = "clink/lib/src/display_readline.cpp"
RM = "clink/lib/src/rl/rl_module.cpp"
TI = "clink/terminal/src/win_terminal_in.cpp"
prop("E01", "Every line that is typed or pasted reaches cmd.exe exactly once, unaltered and in order",
     "However fast keys are typed and text is pasted, also while commands run or prompts are being prepared, cmd.exe is given exactly the lines that the editing keys (inserting, overwriting, moving, selecting, deleting, killing, yanking, undoing, recalling and searching history, copying, cutting and pasting) produce, each once and in order; characters outside the BMP and double width characters are never split. Pasting several lines splits or joins them as clink.paste_crlf says, doskey macros expand to their commands, an unfinished last line stays in the editor, and what is typed for a command that reads the console gets to that command. Failing reads, writes, opens and locks of clink's own files never lose, change or block a line.",
     ["inputs", "schedules", "fault_sequences", "configurations"],
     "All sequences of keys and pastes, with all timings relative to the commands, prompts, scripts and background threads of a session, and all failures of file operations in the profile directory.",
     "The tests feed one line at a time to a line editor without cmd.exe, threads, a console or timing.",
     [HC, HO, RM, TI, "clink/lib/src/line_editor_impl.cpp"],
     [("queue of pasted and expanded lines", HO + " queue, dequeue_line"), ("reading console input", TI), ("dispatching keys to bindings", "clink/lib/src/line_editor_impl.cpp, bind_resolver.cpp"), ("pasting", "clink/lib/src/rl/rl_commands.cpp clink_paste"), ("giving lines to cmd.exe", HC + " read_console, edit_line")],
     ["the lines cmd.exe's ReadConsoleW gets", "what commands reading the console get"], [("queued lines", "lines to be returned by later calls", HO)])
prop("E02", "Whenever a session is idle the screen shows exactly what was printed and typed",
     "When all input has been dealt with, the screen and its scrollback contain what the commands printed, each prompt once, each accepted line once as it was when it was accepted, and the prompt with the current input line, with nothing left over and nothing missing, and the cursor is at the editing position. This holds for all lines that fit on the screen (wrapping, scrolling the screen), wide and astral characters, prompts of several lines or with escape sequences, any screen size, terminal and Windows' own or clink's emulation of escape sequences, and any timing.",
     ["inputs", "schedules", "configurations"],
     "All sequences of keys, pastes and commands, with all timings, at all sizes of the screen that do not change while the line is edited.",
     "The tests have no screen: display code runs with output discarded.",
     [DR, "clink/terminal/src/win_screen_buffer.cpp", "clink/terminal/src/ecma48_terminal_out.cpp", "clink/lib/src/line_editor_impl.cpp"],
     [("incremental redisplay", DR + " display_manager::display"), ("cursor tracking and wrapping", DR), ("emulating escape sequences", "clink/terminal/src/ecma48_terminal_out.cpp"), ("accepting a line", RM)],
     ["screen contents and cursor position"], [("display_lines", "what is on the screen", DR)])
prop("E03", "Ctrl-C and Ctrl-Break end the current line and nothing else",
     "Ctrl-C typed while a line is edited discards that line and gives cmd.exe an empty one. Ctrl-Break at any moment ends at most the line being edited and drops lines that were pasted with it and have not been run; all text typed before and after it ends up in some line, unaltered and in order, apart from what was on the interrupted line. The session never hangs or exits because of them, and following lines work as if nothing had happened.",
     ["schedules", "inputs", "histories"],
     "All moments at which the console control handler thread can run relative to the editing thread, for all typed and pasted text.",
     "Control events arrive on another thread at arbitrary times; no test delivers one.",
     [HC, "clink/lib/src/line_editor_impl.cpp", TI, RM],
     [("control handler", "clink/lib/src/line_editor_impl.cpp, rl_module.cpp clink_is_signaled"), ("interrupting the wait for input", TI + " s_interrupt"), ("dropping queued lines", HO + " ctrl-break")],
     ["the lines cmd.exe gets"], [("signal", "a control event that has not been dealt with", RM)])
prop("E04", "The error level is always that of the last command",
     "When a prompt is shown, os.geterrorlevel() is the error level that the last command left, also after macros, several commands on one line, pastes, commands that were not found and commands reading input; obtaining it changes neither the error level that commands see, nor what is on the screen, nor the history, nor the lines that are run.",
     ["histories", "schedules", "inputs"],
     "All sequences of commands, macros and pastes, with all timings.",
     "clink obtains the value by making cmd.exe run a hidden command before each prompt; no test involves cmd.exe.",
     [HO, HC],
     [("hidden command before the prompt", HO + " enqueue_lines, m_pending errorlevel"), ("reading the value", HO), ("hiding its output", HC + " write_console")],
     ["os.geterrorlevel in prompt filters", "the error level of commands", "the screen"], [("clink_errorlevel_<pid>.txt", "the value", "temporary directory")])
prop("H05", "The history records exactly the lines that were accepted",
     "After a session the recorded history consists of the lines that were accepted, in order, as they were entered (before macro expansion), without empty lines, without lines starting with a space when history.ignore_space is on, and with duplicates added, ignored or moved to the end as history.dupe_mode says. Recalling a line, editing it and returning to other lines changes no recorded line, and clink's hidden commands, answers to commands and discarded lines are not recorded.",
     ["inputs", "histories", "schedules", "configurations"],
     "All sequences of lines, recalls and edits, for all settings of duplicate and space handling, with all timings.",
     "The tests of the history start below the line editor.",
     [HO, "clink/lib/src/history_db.cpp", RM],
     [("adding the line", HO + " edit_line"), ("ignoring", "clink/lib/src/history_db.cpp history_db::add"), ("recalling", "readline/readline/misc.c rl_get_previous_history")],
     ["history files after the session"], [("history", "accepted lines", "profile directory")])
CO = "clink/lua/scripts/coroutines.lua"
prop("L01", "Commands that scripts run in the background complete, with their complete output",
     "What a script reads from io.popenyield is exactly the output of the command and the results of closing it and of os.execute are its exit status, however the command's output, the reading thread and the editing thread are timed. Each coroutine runs once; when the session is idle the coroutines of the current line, and those told to run until complete, complete without a key being pressed, also when many wait for each other, and prompts that depend on them get updated; those of earlier lines do not disturb the lines that follow.",
     ["schedules", "inputs", "histories"],
     "All interleavings of the editing thread, the threads reading output, and the commands, for any number of coroutines and amount of output, and any typing meanwhile.",
     "The tests resume coroutines in a loop on one thread; wake-ups, reading threads and the end of a line never race.",
     [CO, "clink/lua/src/async_lua_task.cpp", "clink/lua/src/io_api.cpp", "clink/lua/src/yield.cpp", "clink/lua/scripts/prompt.lua"],
     [("scheduling coroutines", CO + " _resume_coroutines, _wait_duration"), ("one background command at a time", CO + " release_coroutine_yieldguard"), ("reading output on a thread", "clink/lua/src/io_api.cpp popen_buffering"), ("waking the editor", "clink/lua/src/yield.cpp yield_thread"), ("asynchronous prompts", "clink/lua/scripts/prompt.lua clink.promptcoroutine")],
     ["what scripts read and when", "the prompt on the screen"], [("yieldguard", "the running background command", CO)])

prop("E05", "Directory shortcuts change to exactly the directory that is named",
     "A line that is the name of an existing directory followed by a path separator, or dots (`..`, `...` and so on, `..\\..`), or `-`, `cd -`, `chdir -` changes cmd.exe's current directory to the named, upper or previously current one: relative to cmd.exe's current directory at that moment, on any drive, quoted and escaped as cmd.exe does, also from macros and pastes, and whatever directories scripts change to in their callbacks. The previous directory is that of the previous prompt that was in another directory (directories.dupe_mode). Any other line is given to cmd.exe unaltered.",
     ["histories", "inputs", "configurations"],
     "All sequences of lines, shortcuts, macros and directory changes, with any scripts changing directory in callbacks.",
     "The tests parse single lines; what is current and previous depends on the history of a session, cmd.exe and scripts.",
     ["clink/lib/src/intercept.cpp", HO, "clink/lua/src/prompt.cpp", "clink/lua/src/lua_state.cpp"],
     [("recognising shortcuts", "clink/lib/src/intercept.cpp intercept_directory"), ("previous directories", HO + " update_dir_history, prev_dir_history"), ("restoring the directory after callbacks", "clink/core/src/os.cpp os::cwd_restorer")],
     ["cmd.exe's current directory after each line", "the prompts", "the lines cmd.exe gets"], [("s_dir_history", "directories at earlier prompts", HO)])
prop("L02", "What scripts decide about lines is done exactly, once, and in order",
     "For each line that is accepted, each registered handler is called once, in the order of registration, with the right text: onbeginedit and onprovideline before the prompt, onhistory, onendedit and onfilterinput after the line was accepted. cmd.exe gets exactly what the filters made of the line (a replacement, nothing, or several lines that are run in order, with macros expanded), and the history what onhistory made of it; a line given by onprovideline is run once, and never at the cost of pasted lines or of text that is still being edited. A handler that fails changes nothing. Functions bound to keys see and change the line and the cursor exactly as rl_buffer's functions say.",
     ["inputs", "histories", "schedules"],
     "All combinations of handlers and their results, for all sequences of lines, pastes, macros and keys.",
     "The tests call no handler from a session: which calls are made when, and what becomes of their results, depends on queued lines, hidden commands and cmd.exe.",
     [HO, "clink/lua/src/lua_state.cpp", "clink/lua/scripts/events.lua", "clink/lua/src/rl_buffer_lua.cpp"],
     [("calling handlers", "clink/lua/scripts/events.lua, " + HO + " edit_line"), ("results", "clink/lua/src/lua_state.cpp send_event_*"), ("queueing further lines", HO + " m_line_queue"), ("key functions", "clink/lua/src/rl_buffer_lua.cpp")],
     ["the calls of handlers", "the lines cmd.exe gets", "the history"], [("m_line_queue", "lines to be returned by later calls", HO)])

prop("T01", "Asking the terminal something returns its answer and disturbs no typing",
     "A script's console.sendterminalrequest (in a key's function, an event handler, a prompt filter or a coroutine) returns exactly the terminal's answer to it if that comes in time, whatever kind of answer it is, at whatever moment it comes and whatever is being typed, and nothing otherwise. No part of the answer is entered as input. Every key that is typed before, during or after a request has its effect exactly once, in the order of typing, on the lines that are edited, without waiting for another key.",
     ["schedules", "inputs", "fault_sequences"],
     "All moments at which requests are made and answers come or fail to come, relative to all keys typed.",
     "The tests have no terminal that answers: what is at stake is the order of answers and keys in one stream, read by nested waits.",
     ["clink/terminal/src/win_terminal_in.cpp", "clink/lua/src/console_api.cpp"],
     [("separating the answer from typed keys", "clink/terminal/src/win_terminal_in.cpp send_terminal_request, is_matching_response"), ("keys read meanwhile", "clink/terminal/src/win_terminal_in.cpp m_pending_records, read_console, peek")],
     ["results of requests", "the lines cmd.exe gets", "the screen"], [("m_pending_records", "input records to be processed (again)", "clink/terminal/src/win_terminal_in.cpp")])

# MORE

def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            p = dict(p)
            p.pop("_note")
            f.write(json.dumps(p) + "\n")
    ids = {p["id"] for p in P}
    assert set(CHECKS) <= ids, set(CHECKS) - ids
    m = {"version": 1, "setup_cmd": "python3 tools/build.py",
         "hooks": {"guard": "none", "enable": "No hooks: the simulator replaces the system calls in the compiled objects of the unmodified sources (tools/build.py).", "source_commits": []},
         "checks": [], "not_applicable": []}
    for p in P:
        if p["id"] not in CHECKS:
            m["not_applicable"].append({"property": p["id"], "reason": p["_note"]})
            continue
        c = CHECKS[p["id"]]
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p['id']}",
                            "technique": "deterministic simulation with fault injection: " + c.get("technique", "seeded search over schedules, crashes and faults; oracle over the recorded history"),
                            "level": "exploration",
                            "level_note": p["_note"] or "Seeded search, not exhaustive: no violation on the runs explored. Trusts the simulated Windows API; real clink code compiled from the working tree."})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
