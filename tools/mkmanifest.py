#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json,os
TECH="deterministic simulation with fault injection: seeded search over schedules, signals and faults of whole shell sessions on a simulated kernel, judged by a reference model"
NOTE={
"C01":"Seeded sampling of pipelines (1-6 stages, sizes around the pipe capacity, functions, short transfers).",
"C02":"Seeded sampling of lists, pipelines and background activity under random and priority schedules.",
"C03":"Seeded sampling of and-or lists with exits and deaths by signal, `exit`, script and -c runs.",
"C04":"Seeded sampling of background jobs and their deaths at arbitrary instants.",
"C05":"Seeded sampling with small pid spaces (forced pid reuse), simultaneous deaths, fg/bg of dead jobs.",
"C06":"Seeded sampling of job histories with `jobs` at arbitrary points; states compared with the simulated process table.",
"C07":"Signals at arbitrary system calls, allocator entries and inside handlers of the interactive shell.",
"C08":"Seeded sampling of stop/continue histories, by number and by process id, also of dead and malformed jobs.",
"C09":"At every simulated exec the whole process state is compared with the model.",
"C10":"File contents after the run compared with the model; open failures injected.",
"C11":"fork, pipe, dup, open, exec, chdir, setpgid failures and limits injected into one or several lines, later lines must be unaffected.",
"C12":"Mask and handlers read from the simulated kernel at every prompt.",
"C13":"Substitutions of all sizes, chunkings and interruptions; argument lists compared with the model.",
"C14":"Typed, pasted, -c, script and sourced input with short and interrupted reads.",
"C15":"Histories of cd, assignments, exports and commands; environment and cwd at every exec compared with the model.",
"C16":"Descriptor table at every prompt compared with the first prompt, under injected failures.",
"C17":"rustyline runs for real on a simulated terminal: keys, signals, hang-up at arbitrary instants.",
"C18":"History file compared with the lines entered; failing, short and interrupted writes injected.",
"C21":"Tab keys anywhere in terminal sessions under all kinds of PATH, failing and partial directory reads, signals. The completion list itself (skim, another program in threads) is not simulated: that it is offered is observed, the session is judged up to there.",
"C22":"SIGINT and SIGTSTP delivered at each of the steps right after a fork, to the group or the process; delivery, exec mask and dispositions compared.",
"C23":"Startup files of all kinds (definitions, commands, syntax errors, directories) under short reads, open/read failures and failing forks, before sessions, scripts and -c runs.",
"C24":"Programs (and things that are none) of the same name in several directories, changing PATH and working directory, names with and without a directory, entries that cannot be examined; the path of every exec compared with the model.",
}
TAIL=" Assurance: no counterexample in the sampled executions (counts in the evidence). Trusted: the simulated kernel, the reference model, preemption at system calls and allocator entries only."
have=[l.strip() for l in open(os.path.join(os.path.dirname(__file__),"claimed.txt")) if l.strip()]
m=dict(version=1,setup_cmd="./check.sh setup",
 checks=[dict(property=p,quick_cmd=f"./check.sh {p} quick",thorough_cmd=f"./check.sh {p} thorough",technique=TECH,level="exploration",level_note=NOTE[p]+TAIL) for p in have],
 not_applicable=[
  dict(property="C19",reason="The lexer and parser are pure functions of their input: no schedule, clock, I/O or fault can influence them, so simulation has nothing to decide (generated sessions do exercise the parser, and a panic there would show as a crash under C14)."),
  dict(property="C20",reason="Scoping of variables, aliases, functions and contexts is a sequential in-memory computation; its only interaction with processes (environment, working directory, children) is claimed as C15."),
 ]+[dict(property=p,reason="No check yet.") for p in NOTE if p not in have],
 notes="No hooks in /repo: the shell is simulated below libc (LD_PRELOAD shim plus seccomp user dispatch), see DESIGN.md. Replays: ./check.sh replay FILE. Determinism self-test: ./check.sh selftest.")
json.dump(m,open(os.path.join(os.path.dirname(__file__),"..","MANIFEST.json"),"w"),indent=1)
