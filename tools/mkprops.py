#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the long texts stay reviewable).
import json,os
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
T="The 15 existing tests only check that 15 fixed command lines parse; nothing is ever forked, executed, signalled or faulted. "
p("C01","Pipelines carry every byte once, in order, and end with EOF or SIGPIPE",
 "In `a | b | ...` every byte a stage writes to stdout reaches the next stage's stdin exactly once and in order, the stages run concurrently (a pipeline whose data exceeds the pipe buffer still finishes), and the last stage's output goes to the shell's stdout. A stage sees end-of-file on stdin once the stage before it has ended, and a stage whose reader is gone gets SIGPIPE (a broken pipe), so no pipeline hangs on a stray pipe end. A stage may be a program, a function or a builtin: in a pipeline of several stages, or in the background, each runs in a process of its own. This holds for any number of stages, data sizes, pipe capacity, relative speed and scheduling.",
 ["schedules","inputs","configurations"],"all stage counts, data volumes, pipe capacities and interleavings of the shell with its children",
 T+"Lost pipe ends show only as hangs for particular sizes and interleavings.",
 ["src/eval.rs"],[("fork/pipe/dup2 loop of eval_pipeline","src/eval.rs:eval_pipeline")],["bytes read by each child on fd 0 and written on fd 1","shell's stdout"])
p("C02","Foreground work is finished before the shell moves on",
 "The shell does not start the next command of a list, evaluate the right side of `&&`/`||`, or read the next input line until every process of the current foreground pipeline has terminated (or the pipeline has been stopped). This does not depend on the order in which the stages exit, on background jobs terminating meanwhile, or on signals arriving while the shell waits. Once all of them have terminated the shell does move on.",
 ["schedules","histories"],"all exit orders of the stages, background activity and signal timings",
 T+"Waiting for the wrong process, or returning early, only shows for particular exit orders.",
 ["src/jobs.rs","src/eval.rs"],[("wait_for_job / do_wait / wait_one","src/jobs.rs"),("foreground branch of eval_pipeline","src/eval.rs:eval_pipeline")],["live processes of the job at the moment the shell reads the next line or forks the next command"])
p("C03","Exit statuses steer `&&`, `||`, `!`, `exit` and the shell's own status",
 "The status of a foreground pipeline is that of its last command, whichever stage ends first (also when the shell was started with SIGCHLD ignored), and a last command killed by a signal counts as failure (non-zero). In `a && b || c` and `! a` exactly the commands selected by these statuses, left to right, are run, once each. `exit` without operand, and a `-c` or script run that reaches its end, leave with the status of the last command; `exit N` leaves with N.",
 ["schedules","inputs","histories"],"all and-or lists, exit codes, deaths by signal and exit orders of the stages",
 T+"No status is ever computed by a test.",
 ["src/eval.rs","src/jobs.rs","src/builtins.rs","src/main.rs"],[("eval_and_or, set_exit_status","src/eval.rs"),("job status computation","src/jobs.rs:wait_one"),("quit","src/builtins.rs:quit")],["which commands are executed","exit status of the shell process"],
 [dict(name="EXIT_STATUS",meaning="status of the last command",where="src/eval.rs")])
p("C04","Background jobs never block the shell",
 "`cmd &` (also a pipeline or a function) starts the job and lets the shell read and run further input at once, however long the job runs, whatever it writes, and whenever it or single members of it terminate. Every command of the background job is started exactly once and runs concurrently with the shell and other jobs. Starting a job announces a line with its job number in brackets and the process id of its first process.",
 ["schedules","histories"],"all relative timings of background jobs, their members' deaths and foreground commands",
 T+"Blocking depends on when a background process dies relative to the shell's own waits.",
 ["src/eval.rs","src/jobs.rs","src/trap.rs"],[("background branch of eval_pipeline","src/eval.rs:eval_pipeline"),("SIGCHLD handling","src/trap.rs:on_sig")],["next line is consumed while the job runs","announcement on stdout"])
p("C05","Every child is reaped exactly once and stale pids are never used",
 "Every process the shell starts that terminates is reaped (no zombie stays behind once the shell has come back to its prompt after the termination), also when several terminate at the same instant or while the shell waits for something else. The shell never reports or loses a termination twice, and never sends a signal to, or sets the process group of, a process id it has already reaped or never started.",
 ["schedules","histories","fault_sequences"],"all numbers and timings of terminations, including coalesced SIGCHLD and reused process ids",
 T+"SIGCHLD coalescing and pid reuse are pure timing effects.",
 ["src/trap.rs","src/jobs.rs","src/builtins.rs"],[("SIGCHLD handling","src/trap.rs"),("wait_one / wait_process","src/jobs.rs"),("fg / bg kill","src/builtins.rs")],["simulated process table at each prompt","targets of kill and setpgid"])
p("C06","`jobs` lists exactly the live jobs, with stable unique numbers and true states",
 "At any moment `jobs` succeeds and lists every background or stopped job that has a live process, each once, under the number announced when it was started (numbers of live jobs are unique and never change), and no job that finished before the current line was read. A listed job whose processes are all stopped is shown as Stopped, one that runs as Running, and a job with at least one live process is never shown as Done.",
 ["schedules","histories"],"all histories of starting, stopping, continuing and finishing jobs",
 T+"The job table is never exercised by a test.",
 ["src/jobs.rs","src/shell.rs","src/builtins.rs"],[("JobControl table and numbering","src/jobs.rs"),("Display for JobControl/Job","src/jobs.rs"),("jobs builtin","src/builtins.rs:jobs")],["output of jobs against the simulated process table"],
 [dict(name="job_table",meaning="job number to job",where="src/jobs.rs:JobControl"),dict(name="next_job_id",meaning="next number",where="src/jobs.rs:JobControl")])
p("C07","The interactive shell survives SIGINT, SIGTSTP and SIGCHLD at any moment",
 "Once the interactive shell has shown its first prompt, SIGINT (Ctrl-C), SIGTSTP (Ctrl-Z) and SIGCHLD delivered at any instant - at the prompt, while parsing, forking, waiting, running a builtin or handling another signal, and repeatedly - never kill, stop, crash, deadlock or corrupt it. Afterwards it reads and runs further input normally, and no input line that was not interrupted at the prompt is lost or run twice.",
 ["schedules","fault_sequences"],"all signal kinds, counts and delivery points (between any two system calls and inside memory allocations)",
 T+"Delivery points inside the shell's own code cannot be chosen by a test.",
 ["src/trap.rs","src/main.rs","src/jobs.rs","src/shell.rs"],[("on_sig","src/trap.rs:on_sig"),("interrupts_off/on sections","src/trap.rs"),("interactive_loop","src/main.rs")],["shell stays alive and consumes the remaining lines"])
p("C08","Stopped jobs: stop returns to the prompt, fg and bg resume the right job",
 "When a foreground job is stopped (SIGTSTP/SIGSTOP) the shell comes back to its prompt and keeps the job, listed as Stopped. `fg %n` and `bg %n` (or by process id) continue every process of exactly that job; fg then waits until it terminates or stops again and has its exit status (as for any foreground command), bg returns at once, and afterwards the job is again reported, reaped and removed like any other, however often it is stopped and continued. fg or bg of an unknown, already finished or malformed job is an error message, never a crash or a signal to anything.",
 ["schedules","histories"],"all sequences of stop, continue, fg, bg and termination",
 T+"No job is ever created by a test.",
 ["src/builtins.rs","src/jobs.rs"],[("fg, bg, fgbg","src/builtins.rs"),("Stopped handling in wait_one and delete_job","src/jobs.rs")],["SIGCONT targets","state of processes at the next prompt","jobs output"])
p("C09","Commands start in a clean, predictable process environment",
 "Every external command starts, no matter what the shell was doing or which signals arrive while it is being started, with default dispositions for all signals the shell manages or inherited as ignored from its own runtime (commands of a substitution ignore SIGTSTP), an empty signal mask, only stdin, stdout and stderr plus nothing of the shell's own pipes or files open, the shell's current directory, the exact argument list, and the exported environment plus its own prefix assignments. Background jobs run in a process group of their own, shared by all stages of the job and different from the shell's, while foreground commands share the shell's group.",
 ["schedules","inputs","configurations"],"all commands, pipeline positions, preceding histories and signal timings around fork and exec",
 T+"The state inherited at exec is invisible to the parser.",
 ["src/eval.rs","src/trap.rs","src/jobs.rs"],[("fork_reset / remove_handlers","src/trap.rs:remove_handlers"),("child branch of eval_pipeline","src/eval.rs"),("eval_assignment","src/eval.rs")],["argv, env, cwd, fds, mask, dispositions, pgid at execve"])
p("C10","Redirections send data to exactly the named file, or the command does not run",
 "`> f` makes f contain exactly what the command wrote, `>> f` appends to the previous content without damaging it, also when several commands append at once, `< f` feeds the command exactly the content of f (f may be quoted or a variable), `N> f` redirects descriptor N only, and when several redirections of one descriptor are given the last one counts. If a redirection cannot be opened the command is not executed, no other file is changed by it, the status is non-zero, and the shell continues. All this holds for builtins and functions as well as for programs, and once they are over the shell's own descriptors are what they were.",
 ["inputs","schedules","fault_sequences"],"all redirection lists, prior file contents, data sizes, and open/write failures",
 T+"No file is ever opened by a test.",
 ["src/eval.rs","src/grammar.lalrpop"],[("eval_redirect","src/eval.rs:eval_redirect")],["simulated file contents after the command","execve not reached after a failed open"])
p("C11","Failing fork, pipe, open or exec never takes the shell down or leaves debris",
 "If fork, pipe, dup, setpgid, exec or opening a file fails (process or descriptor limits, no memory, missing or non-executable file, I/O error), the shell reports the error, gives the failed command a non-zero status and goes on (at the latest with the next line): it never exits, hangs, runs a command twice, or runs in the child what belongs to the parent. Processes already started for the abandoned pipeline are not left waiting for ever on the shell's pipe ends and are reaped, no phantom job stays listed, and once the fault is over everything works as before. A command that does not exist has a non-zero status.",
 ["fault_sequences","schedules"],"every failing call, at every position of every pipeline, with every errno",
 T+"Failures of system calls cannot be provoked in a unit test.",
 ["src/eval.rs","src/jobs.rs","src/ast.rs"],[("error branches of eval_pipeline","src/eval.rs"),("temp_fork / temp_exec","src/eval.rs")],["shell alive and next line runs correctly after the fault"])
p("C12","Builtins, errors and interruptions leave signal handling as it was",
 "Whenever the interactive shell is at its prompt its signal mask is empty and its SIGINT, SIGTSTP and SIGCHLD handlers are installed, no other disposition has changed, whatever ran before (and whatever signals the program that started the shell left blocked or ignored): builtins that succeed or fail (cd to a missing directory, exec of a missing command, fg of an unknown job), syntax errors, failed pipelines, functions. Consequently Ctrl-C, Ctrl-Z and child termination keep working for the rest of the session.",
 ["histories","fault_sequences","schedules"],"all sequences of successful and failing commands and failing system calls",
 T+"The mask and dispositions of the process are never observed by a test.",
 ["src/eval.rs","src/builtins.rs","src/trap.rs"],[("interrupts_off / interrupts_on pairing","src/eval.rs, src/builtins.rs, src/shell.rs"),("exec_cmd / temp_execve","src/builtins.rs, src/eval.rs")],["blocked mask and dispositions of the shell while it reads a line"])
p("C13","Command substitution yields the complete output, for any size and timing",
 "`\"$(cmd)\"` and \"`cmd`\" run cmd once and are replaced by its complete output with surrounding whitespace trimmed (split into words at blanks), whatever the size of the output relative to the pipe buffer, however it is chunked over time, and whatever signals (Ctrl-Z included, which never leaves the shell waiting) or child terminations arrive meanwhile. The shell then continues, with no process or descriptor left over.",
 ["inputs","schedules","fault_sequences"],"all output sizes, chunkings, pipe capacities and signal timings",
 T+"Deadlock on large output or truncation by an interrupted call depends on size and schedule.",
 ["src/ast.rs"],[("eval_subshell","src/ast.rs:eval_subshell"),("cut_quotes / eval_double_quotes","src/ast.rs")],["argv of the command whose argument was substituted"])
p("C14","Script, -c, sourced and typed input runs completely, once, in order",
 "Every command of a script file, of `-c`, of a sourced file, of the words given to `eval` and of the lines on standard input is executed exactly once and in order, independent of how the input is chunked by short or interrupted reads, whether it ends with a newline, and blank or comment lines. A line with a syntax error is reported and does not stop or duplicate the others, a missing or unreadable script or sourced file is an error message, and at the end of the input the shell terminates.",
 ["inputs","schedules","fault_sequences"],"all inputs and all splittings of the input over read calls",
 T+"Tests pass complete strings to the parser and never run the read loops.",
 ["src/main.rs","src/builtins.rs"],[("script_loop, read_from_args, interactive_loop","src/main.rs"),("source","src/builtins.rs:source")],["sequence of executed commands","termination of the shell process"])
p("C15","What happens in a child stays there; what happens in the shell persists",
 "Prefix assignments (`X=1 cmd`), redirections, background jobs and pipeline stages (programs, functions and builtins like `cd` alike) never change the shell's own variables, working directory, descriptors or environment. `cd`, variable assignments, `export` and function definitions made in the shell itself stay in force for all later commands: an exported variable (also one assigned first and exported later) is in the environment of every later command with its latest exported value until it is unset, an unexported one in none; a readonly variable keeps its value, also against `unset` and another `readonly`; functions and aliases stay until `unset -f` and `unalias`.",
 ["histories","inputs"],"all command histories",
 T+"No command is executed by a test, so nothing observes what crosses a fork.",
 ["src/eval.rs","src/builtins.rs","src/context.rs"],[("eval_prefix_suffix in the child","src/eval.rs"),("export / assignment / change_directory","src/builtins.rs")],["env and cwd of each executed command"])
p("C16","The shell does not leak file descriptors",
 "Each time the shell is back at its prompt it holds exactly the descriptors it held at its first prompt, with the same offsets' owner files, whatever pipelines, redirections, substitutions, functions, sourced files and failures (of open, pipe, fork, exec) came before.",
 ["histories","fault_sequences","schedules"],"all histories including failing system calls",
 T+"Leaks are invisible until a limit is reached.",
 ["src/eval.rs","src/ast.rs","src/builtins.rs"],[("close calls of eval_pipeline","src/eval.rs"),("eval_subshell","src/ast.rs")],["descriptor table of the shell at each prompt"])
p("C17","The terminal is in its original mode whenever the shell is not editing a line",
 "On a terminal, the mode found at startup is in force whenever a command runs and after the shell has ended (by exit, end of input or error), whatever keys, signals and child terminations arrived during line editing. Typed lines are executed exactly as entered, Ctrl-C while editing discards the line and gives a new prompt, and Ctrl-D on an empty line ends the shell.",
 ["schedules","inputs","fault_sequences"],"all key sequences, input chunkings and signal timings during editing",
 T+"Nothing is run on a terminal by the tests.",
 ["src/main.rs","src/shell.rs","src/trap.rs"],[("interactive_loop over rustyline","src/main.rs"),("Editor configuration","src/shell.rs")],["simulated termios at each fork, exec and at exit"])
p("C18","The history file keeps the lines entered, and a failing save does no harm",
 "When an interactive session on a terminal ends, by `exit` or end of input, the history file contains the lines entered (consecutive duplicates once) in order, also when writes to it are short or interrupted. If it cannot be opened or written the shell still ends with the right status and without crashing.",
 ["inputs","fault_sequences"],"all sessions and all failing or short writes of the history file",
 T+"The history is never saved by a test.",
 ["src/shell.rs","src/main.rs","src/builtins.rs"],[("save_history","src/shell.rs"),("calls at exit","src/main.rs, src/builtins.rs:quit")],["content of the simulated history file at exit"])
p("C19","The parser is total and parses what it prints in its documentation",
 "Every input line is either parsed to the command structure of the shell grammar or rejected with an error; the lexer and parser never panic or loop.",
 ["inputs"],"all input strings",T+"15 fixed strings are parsed.",
 ["src/lexer.rs","src/grammar.lalrpop","src/ast.rs"],[("Lexer","src/lexer.rs"),("CompleteCommandParser","src/grammar.lalrpop")],["parse result"])
p("C20","Variable, alias, readonly, function and context scoping is consistent",
 "A variable, alias or function lookup yields the innermost definition, readonly values never change, unset removes exactly the named item, and names inside exported contexts (namespaces) resolve to that context's own items.",
 ["inputs","programs"],"all sequences of definitions and lookups",T+"No lookup is exercised.",
 ["src/context.rs","src/var.rs","src/builtins.rs"],[("ContextManager","src/context.rs")],["value seen by commands"])
p("C21","Tab finds the commands of PATH and never harms the session",
 "When Tab is pressed while a line is edited on a terminal, the list of completions is offered if, and only if, the directories of the exported PATH contain a command whose name begins with the text of the line so far; otherwise the line stays exactly as it was and editing goes on. Whatever PATH is (also unset) and whatever its directories are (missing, not a directory, unreadable, huge, with names that are no valid text), however reading them fails or comes in pieces, and whatever signals and deaths of jobs arrive meanwhile, the shell does not end, no descriptor stays open, and the lines submitted before and after are executed as typed.",
 ["inputs","fault_sequences","schedules"],"all positions of Tab keys in all sessions, all values of PATH, all failures of opening and reading its directories, all signals meanwhile",
 T+"Completion is not tested.",
 ["src/completion.rs","src/shell.rs"],[("command_complete","src/completion.rs:command_complete"),("CompletionHelper","src/completion.rs")],["start of the completion list","lines executed","shell alive, descriptors at each prompt"])
p("C22","Ctrl-C and Ctrl-Z reach a command also while it is being started",
 "A SIGINT or SIGTSTP sent to a command's process (or to its process group, as by Ctrl-C and Ctrl-Z) at any instant after the shell has forked that process terminates or stops it, also while the process still is a copy of the shell that has not run its command yet: the signal is never swallowed there. This holds for single commands, each stage of a pipeline, commands within functions and commands of a substitution, except that the commands of a substitution ignore SIGTSTP. The command then is not run (or does not go on), is run at most once, and the shell treats it like one that was interrupted or stopped while it ran.",
 ["schedules","inputs"],"all delivery points between the fork of a process and its exec, in all positions of pipelines, functions and substitutions",
 T+"The window between fork and exec is microseconds wide and a signal in it cannot be provoked by a test.",
 ["src/eval.rs","src/trap.rs","src/ast.rs"],[("temp_fork / fork branches of eval_pipeline","src/eval.rs"),("remove_handlers","src/trap.rs:remove_handlers"),("fork of eval_subshell","src/ast.rs:eval_subshell")],["delivery of each signal to a process that has not executed its command yet","mask and dispositions at execve"])
p("C23","Startup files run completely before anything else, and a bad one does no harm",
 "Before the first prompt, script line or -c command the shell executes `.rshrc` and then `.profile` of the directory named by HOME, in the shell itself: every command in them runs exactly once and in order, and the variables, exports, functions, aliases and working directory they set are in force afterwards. The first prompt appears only when their foreground commands have finished, with no descriptor left open. A missing file is skipped silently; one that cannot be opened, read completely (then no part of it is executed) or parsed is reported and skipped; a command in them that fails, or a failing system call, never ends the shell.",
 ["inputs","fault_sequences","schedules"],"all contents of the two files, all splittings of the reads, all failures of opening, reading and of the commands started",
 T+"The startup files are never read by a test.",
 ["src/main.rs"],[("read_rc, read_user_profile","src/main.rs"),("order of startup in main","src/main.rs:main")],["sequence of executed commands and their environment","shell alive at its first prompt"])
p("C24","A command name runs exactly the program it stands for",
 "A command name without a slash runs the first executable regular file of that name in the directories of PATH, in their order, as PATH (and, for relative directories, the working directory) is when the command is started, however often it was changed, unset or assigned before. Directories that are missing or no directories, files of that name that cannot be executed, and entries that cannot be examined are passed over. A name with a slash runs that file itself, relative to the working directory. A name found nowhere is an error with non-zero status and runs nothing. All this holds in pipelines, functions, substitutions and the background alike; `source` finds a readable file in the same way, else in the working directory, and its status, like that of `eval`, is that of the last command run, or 0 without one.",
 ["inputs","programs","fault_sequences","schedules"],"all histories of PATH and working directory, all contents of the directories, all command names, all failures of examining entries",
 T+"No command is ever looked up by a test.",
 ["src/context.rs","src/eval.rs","src/builtins.rs"],[("lookup_command, lookup_file","src/context.rs"),("temp_exec","src/eval.rs:temp_exec"),("source, eval_cmd","src/builtins.rs")],["path given to each successful execve","sequence of executed commands"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
except ImportError: pass
