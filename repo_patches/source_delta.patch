From 92cc329c0fbdade6645a2ba14d7b720b0a71115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 01/72] fix: a job's status is its last process's, and a
 pending first process does not panic the shell

---
 src/jobs.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 94e50cf..fc4c1fb 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -534,8 +534,11 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
                 stopped = true;
             }
         }
-        let stop_status = jb.borrow().processes[0].status.unwrap();
-        jb.borrow_mut().stop_status = stop_status;
+        // the status of a job is that of its last process, once that is known
+        let stop_status = jb.borrow().processes.last().and_then(|process| process.status);
+        if let Some(stop_status) = stop_status {
+            jb.borrow_mut().stop_status = stop_status;
+        }
         if this_job.is_some() {
             if state != JobState::Running {
                 this_job.as_ref().unwrap().borrow_mut().changed = true;
-- 
2.43.0


From 35c0d2867678d53b792958921c278c5d811243c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 02/72] fix: wait for every process of a foreground job, not
 just the first to end

---
 src/jobs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index fc4c1fb..0cb4c2e 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -603,7 +603,7 @@ fn do_wait(mut block: usize, job: &Option<Rc<RefCell<Job>>>) -> i32 {
 
         block &= !DOWAIT_WAITCMD_ALL;
 
-        if pid.is_ok() || (job.is_some() && job.as_ref().unwrap().borrow().state != JobState::Running) {
+        if job.is_none() || job.as_ref().unwrap().borrow().state != JobState::Running {
             block = DOWAIT_NONBLOCK;
         }
        
-- 
2.43.0


From 0e6bbd76fd1ca5ab3eefc34af670e09e7f60b223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 03/72] fix: a foreground command ended or stopped by a signal
 sets the exit status

---
 src/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 1c83e5e..634b731 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -277,6 +277,9 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
                 WaitStatus::Exited(_, status) => {
                     set_exit_status(status);
                 },
+                WaitStatus::Signaled(_, signal, _) | WaitStatus::Stopped(_, signal) => {
+                    set_exit_status(128 + signal as i32);
+                },
                 _ => (),
             }
         }
-- 
2.43.0


From a510f515e4077311dc2bab08166a6054231bce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 04/72] fix: reap children in a loop at the prompt and in jobs,
 fg and bg, not in the SIGCHLD handler

---
 src/builtins.rs |  2 ++
 src/jobs.rs     | 62 ++++++++++++++++++++++++++++++++-----------------
 src/main.rs     |  2 ++
 src/shell.rs    |  5 ++++
 src/trap.rs     | 38 +++++++++++++++++-------------
 5 files changed, 72 insertions(+), 37 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 59d9f72..8e451d9 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -97,6 +97,7 @@ pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// This is the 'jobs' command of the shell.
 /// It prints out all of the jobs that are currently running.
 pub fn jobs() -> Result<(), std::io::Error> {
+    trap::reap_children();
     print!("{}", shell::display_jobs());
     io::stdout().flush().unwrap();
     Ok(())
@@ -107,6 +108,7 @@ pub fn jobs() -> Result<(), std::io::Error> {
 /// They take a SimpleCommand with a suffix that is either a valid Pid or a job id if it starts with a '%'.
 pub fn fgbg(command: &SimpleCommand) -> Result<(), std::io::Error> {
     trap::interrupts_off();
+    trap::reap_children();
     let id;
     let id_type;
     if command.suffix.is_none() {
diff --git a/src/jobs.rs b/src/jobs.rs
index 0cb4c2e..18507aa 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -161,9 +161,10 @@ impl JobUtils<Pid> for JobControl {
         
          {
              let mut job = job.borrow_mut();
-             if matches!(job.processes[0].status, Some(WaitStatus::Stopped(_,_))) {
+             let stopped = job.processes.iter().find(|process| matches!(process.status, Some(WaitStatus::Stopped(_,_)))).and_then(|process| process.status);
+             if let Some(stopped) = stopped {
                  job.state = JobState::Stopped;
-                 job.stop_status = job.processes[0].status.unwrap();
+                 job.stop_status = stopped;
              }
          } 
 
@@ -179,7 +180,9 @@ impl JobUtils<Pid> for JobControl {
         }
 
         for process in job.borrow().borrow_processes() {
-            self.pid_to_job.remove(&process.pid);
+            if self.pid_to_job.get(&process.pid) == Some(&job_id) {
+                self.pid_to_job.remove(&process.pid);
+            }
         }
 
         self.update_next_job_id();
@@ -216,9 +219,10 @@ impl JobUtils<JobId> for JobControl {
 
          {
              let mut job = job.borrow_mut();
-             if matches!(job.processes[0].status, Some(WaitStatus::Stopped(_,_))) {
+             let stopped = job.processes.iter().find(|process| matches!(process.status, Some(WaitStatus::Stopped(_,_)))).and_then(|process| process.status);
+             if let Some(stopped) = stopped {
                  job.state = JobState::Stopped;
-                 job.stop_status = job.processes[0].status.unwrap();
+                 job.stop_status = stopped;
              }
          } 
         
@@ -231,7 +235,9 @@ impl JobUtils<JobId> for JobControl {
         }
 
         for process in job.borrow().borrow_processes() {
-            self.pid_to_job.remove(&process.pid);
+            if self.pid_to_job.get(&process.pid) == Some(&job_id) {
+                self.pid_to_job.remove(&process.pid);
+            }
         }
 
         if job.borrow().background {
@@ -313,6 +319,11 @@ impl Process {
     pub fn set_pid(&mut self, pid: Pid) {
         self.pid = pid;
     }
+
+    /// This method tells if the process has been reaped, so that its pid may belong to another process.
+    pub fn terminated(&self) -> bool {
+        matches!(self.status, Some(WaitStatus::Exited(_,_)) | Some(WaitStatus::Signaled(_,_,_)))
+    }
 }
 
 /// This struct represents a job for the shell.
@@ -376,12 +387,27 @@ impl Job {
     /// This method sets the status of a process in the job via the pid.
     pub fn set_process_status(&mut self, pid: Pid, status: WaitStatus) {
         for process in &mut self.processes {
-            if process.pid == pid {
-                process.status = Some(status);
+            if process.pid == pid && !process.terminated() {
+                process.status = match status {
+                    WaitStatus::Continued(_) => None,
+                    _ => Some(status),
+                };
 		return;
             }
         }
     }
+
+    /// This method works out the state of the job from the statuses of its processes.
+    pub fn update_state(&mut self) {
+        self.stop_status = self.processes.last().and_then(|process| process.status).unwrap_or(WaitStatus::StillAlive);
+        self.state = if self.processes.iter().any(|process| process.status.is_none()) {
+            JobState::Running
+        } else if self.processes.iter().any(|process| matches!(process.status, Some(WaitStatus::Stopped(_,_)))) {
+            JobState::Stopped
+        } else {
+            JobState::Finished
+        };
+    }
 }
 
 /// This implementation allows us to print out the job.
@@ -405,11 +431,10 @@ impl Display for Job {
 
 //pub fn forkshell()
 
-/// This function waits for a job to finish.
+/// This function updates a job after the status of one of its processes has changed.
 ///
-/// This variant of the function is similar to to wait_for_job but also takes in a WaitStatus.
-/// This is called from a SIGCHLD handler as we need to to know the if the job only has one process or not.
-/// If the job has more than one process then we call the normal wait_for_job function.
+/// This variant of the function is similar to to wait_for_job but never waits.
+/// If all processes of the job have terminated then the job will be deleted.
 pub fn wait_for_job_sigchld(job: Option<Rc<RefCell<Job>>>, status: WaitStatus) -> WaitStatus {
 
     if job.is_none() {
@@ -417,19 +442,14 @@ pub fn wait_for_job_sigchld(job: Option<Rc<RefCell<Job>>>, status: WaitStatus) -
     }
     let job = job.unwrap();
 
-    if job.borrow().processes.len() == 1 {
-        job.borrow_mut().stop_status = status;
-        job.borrow_mut().state = JobState::Finished;
+    job.borrow_mut().update_state();
+    if job.borrow().state == JobState::Finished {
         let id = {
             job.borrow().job_id
         };
         shell::delete_job(id);
-        return status;
     }
-    trap::interrupts_off();
-    let result = wait_for_job(Some(job));
-    trap::interrupts_on();
-    result
+    status
 }
 
 /// This function waits for a job to finish.
@@ -518,7 +538,7 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         state = JobState::Finished;
         let mut stopped = false;
         for process in jb.borrow_mut().borrow_processes_mut() {
-            if process.pid == pid {
+            if process.pid == pid && !process.terminated() {
                 process.status = Some(status);
                 this_job = Some(jb.clone());
             }
diff --git a/src/main.rs b/src/main.rs
index a7e4f64..ccbd80f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -186,6 +186,8 @@ fn interactive_loop() {
     loop {
         let input;
 
+        trap::reap_children();
+
         let readline = rl.borrow_mut().readline(shell::expand_var("PS1").unwrap().as_str());
         match readline {
             Ok(line) => {
diff --git a/src/shell.rs b/src/shell.rs
index ee89cdb..fd67d3f 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -501,6 +501,11 @@ pub fn display_jobs() -> String {
     shell.display_jobs()
 }
 
+/// This function removes all jobs that have finished from the shell.
+pub fn clear_completed_jobs() {
+    SHELL.get().borrow_mut().job_control.clear_completed_jobs();
+}
+
 /// This function gets the last job in the shell.
 pub fn get_current_job() -> Option<Rc<RefCell<Job>>> {
     let shell = SHELL.get().borrow();
diff --git a/src/trap.rs b/src/trap.rs
index 0d22b4c..88b8f0d 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -186,13 +186,9 @@ extern "C" fn on_sig(sig_num: c_int) {
     }
     unsafe {
         if sig_num == signal::SIGCHLD as c_int {
+            // only the flag: the children are collected by reap_children, outside of the handler
             GOT_SIGCHLD.store(true, Ordering::Relaxed);
 
-            sig_chld();
-            
-            
-
-            //sig_chld();//this is different from how dash does it but it should allow for for traps to be set
             if !is_trap_set(signal::SIGCHLD) {
                 return;
             }
@@ -217,17 +213,23 @@ extern "C" fn on_sig(sig_num: c_int) {
     }
 }
 
-/// This is the signal handler for SIGCHLD.
+/// This collects the state changes of all children and updates the job table.
 ///
-/// We have to do some interesting logic here since if we accidentally wait on a non-background process then we will have to return early.
-/// If the process is in the background then we can wait on it.
-fn sig_chld() {
+/// It must not be called from a signal handler or while a foreground job is being waited for.
+pub fn reap_children() {
+    while sig_chld() {}
+    shell::clear_completed_jobs();
+}
+
+/// This handles one state change of a child.
+/// It returns false if there was none left to handle.
+fn sig_chld() -> bool {
     let pid = Pid::from_raw(-1);
 
-    let flag: WaitPidFlag = WaitPidFlag::WNOHANG | WaitPidFlag::WUNTRACED;
+    let flag: WaitPidFlag = WaitPidFlag::WNOHANG | WaitPidFlag::WUNTRACED | WaitPidFlag::WCONTINUED;
     let result = waitpid(pid, Some(flag));
     if result.is_err() {
-        return;
+        return result == Err(nix::errno::Errno::EINTR);
     }
     let status = result.unwrap();
     let pid;
@@ -244,17 +246,21 @@ fn sig_chld() {
             pid = id;
             status
         },
+        WaitStatus::Continued(id) => {
+            pid = id;
+            status
+        },
         WaitStatus::StillAlive => {
-            return;
+            return false;
         },
         _ => {
-            return;
+            return true;
         }, 
     };
 
     let job = shell::get_job(*pid);
     if job.is_none() {
-        return;
+        return true;
     }
     job.as_ref().unwrap().borrow_mut().set_process_status(*pid, status);
    
@@ -272,9 +278,9 @@ fn sig_chld() {
             },
             _ => {},
         }
-        
-        jobs::wait_for_job_sigchld(job, status);
     }
+    jobs::wait_for_job_sigchld(job, status);
+    true
 }
 
 /// This functions is called if the signal was a SIGINT.
-- 
2.43.0


From 0749e62025bb739e77167b994ebd12c0958b25e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 05/72] fix: jobs does not panic on the borrowed shell

---
 src/jobs.rs  | 11 ++++++-----
 src/shell.rs |  7 ++++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 18507aa..991ebc2 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -253,14 +253,15 @@ impl JobUtils<JobId> for JobControl {
     }
 }
 
-/// This implementation allows us to print out the job table.
-impl Display for JobControl {
-    fn fmt(&self, f: &mut Formatter) -> Result<(), Error> {
+/// This allows us to print out the job table.
+impl JobControl {
+    /// The prompt is given by the caller since the shell is borrowed here and can't be asked for it.
+    pub fn display(&self, prompt: &str) -> String {
         let mut s = String::new();
         for (id, job) in self.job_table.borrow().iter() {
-            s.push_str(&format!("[{}] {}{}\n",id, shell::expand_var("PS4").unwrap(), job.borrow()));
+            s.push_str(&format!("[{}] {}{}\n",id, prompt, job.borrow()));
         }
-        write!(f, "{}", s)
+        s
     }
 }
 
diff --git a/src/shell.rs b/src/shell.rs
index fd67d3f..5fb2395 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -215,8 +215,8 @@ impl Shell {
 
     /// This function returns a formatted String with all of the jobs to be printed out.
     /// This is so that it can be used in a way to prevent deadlocks if needed.
-    pub fn display_jobs(&self) -> String {
-        format!("{}",self.job_control)
+    pub fn display_jobs(&self, prompt: &str) -> String {
+        self.job_control.display(prompt)
     }
 
     /// This function gets the last job that was created.
@@ -497,8 +497,9 @@ where
 
 /// This function returns a string that contains all the jobs in the shell.
 pub fn display_jobs() -> String {
+    let prompt = expand_var("PS4").unwrap_or_default();
     let shell = SHELL.get().borrow();
-    shell.display_jobs()
+    shell.display_jobs(&prompt)
 }
 
 /// This function removes all jobs that have finished from the shell.
-- 
2.43.0


From c687665497c73cd885a93f8756d5a0e846f47b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 06/72] fix: unblock signals after builtins and failed
 pipelines

---
 src/eval.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 634b731..e8a1b66 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -112,6 +112,16 @@ fn eval_and_or(and_or: &mut AndOr) -> Result<i32,String> {
 /// handle it.
 /// Interupts are blocked during the fork and exec part to prevent being interupted by a signal.
 fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
+    let result = eval_pipeline_blocked(pipeline);
+
+    //unblock interrupts, also after a builtin or an error
+    trap::interrupts_on();
+
+    result
+}
+
+/// This does the work of eval_pipeline and may return with interrupts blocked.
+fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
 
     let background = pipeline.background;
     let mut pipeline: &mut PipeSequence = &mut pipeline.pipe_sequence;
@@ -296,10 +306,6 @@ fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
 
     //let job = temp_exec(processes)?;
 
-    
-    //unblock interrupts
-    trap::interrupts_on();
-
     Ok(get_exit_code())
 }
 
-- 
2.43.0


From 2de19ffa09ef69f8ec292cd5ec3ddd60009e0bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 07/72] fix: the stages of a background pipeline share one
 process group

---
 src/eval.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index e8a1b66..698de0a 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -214,7 +214,7 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
                 }
                 let pid = getpid();
                 if background {
-                    setpgid(pid, pgid.unwrap()).unwrap();
+                    let _ = setpgid(pid, pgid.unwrap());
                 }
 
                 //unblock interrupts
@@ -258,7 +258,14 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
                 }
             }
             else if matches!(temp_fork_result, Ok(_)) {
-                shell::update_pid_table(job_id, temp_fork_result.unwrap());
+                let pid = temp_fork_result.unwrap();
+                // all processes of a background job are in the process group of the first one
+                let pgid = *pgid.get_or_insert(pid);
+                if background {
+                    // fails when the child has run its command already, but then it has done this itself
+                    let _ = setpgid(pid, pgid);
+                }
+                shell::update_pid_table(job_id, pid);
             }
             if prev_fd >= 0 {
                 close(prev_fd).unwrap();
-- 
2.43.0


From c6405ca701ada7368066ec4c6efffd1fb1473291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 08/72] fix: a failing pipe or fork leaves no phantom job,
 blocked child or open pipe end behind

---
 src/eval.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 698de0a..190fae5 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -180,7 +180,8 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
 
     
 
-    let proc_count;
+    let mut proc_count;
+    let mut failed = None;
     // this code block is to ensure that the mutable borrow is dropped before sigchld is handled
         let job = shell::create_job(processes, background);
     {
@@ -200,7 +201,8 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
             if count < proc_count - 1 {
                 let pipe_result = pipe();
                 if pipe_result.is_err() {
-                    return Err("Failed to create pipe".to_string());
+                    failed = Some("Failed to create pipe".to_string());
+                    break;
                 }
                 pip = pipe_result.unwrap();
             }
@@ -257,7 +259,15 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
                     unreachable!();
                 }
             }
-            else if matches!(temp_fork_result, Ok(_)) {
+            else if temp_fork_result.is_err() {
+                if pip.1 >= 0 {
+                    close(pip.0).unwrap();
+                    close(pip.1).unwrap();
+                }
+                failed = Some("Failed to fork".to_string());
+                break;
+            }
+            else {
                 let pid = temp_fork_result.unwrap();
                 // all processes of a background job are in the process group of the first one
                 let pgid = *pgid.get_or_insert(pid);
@@ -278,7 +288,14 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
 
             count += 1;
         }
-        
+        if failed.is_some() {
+            // only the processes that were started make up the job
+            if count > 0 {
+                close(prev_fd).unwrap();
+            }
+            procs.truncate(count);
+            proc_count = count;
+        }
     }
         if !background && proc_count > 0 && job.borrow().processes.len() > 0{
             //eprintln!("waiting for job");
@@ -313,6 +330,11 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
 
     //let job = temp_exec(processes)?;
 
+    if let Some(failed) = failed {
+        set_exit_status(1);
+        return Err(failed);
+    }
+
     Ok(get_exit_code())
 }
 
-- 
2.43.0


From 76427023ce11638270c0ba17a3929009f18628f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 09/72] fix: command substitution reads its output before
 waiting and survives failures and signals

---
 src/ast.rs | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 8051d66..d711ba3 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -391,21 +391,46 @@ impl SimpleCommand {
         let subshell = &chars.collect::<String>();
 
         let lexer = Lexer::new(&subshell);
-        let mut ast = grammar::CompleteCommandParser::new()
-            .parse(&subshell,lexer)
-            .unwrap();
+        let mut ast = match grammar::CompleteCommandParser::new()
+            .parse(&subshell,lexer) {
+                Ok(ast) => ast,
+                Err(err) => {
+                    eprintln!("Error: {:?}", err);
+                    return String::new();
+                }
+            };
+
+        let pip: (RawFd,RawFd) = match nix::unistd::pipe() {
+            Ok(pip) => pip,
+            Err(err) => {
+                eprintln!("Failed to create pipe: {}", err);
+                return String::new();
+            }
+        };
 
-        let pip: (RawFd,RawFd) = nix::unistd::pipe().unwrap();
+        let fork_result = match unsafe {nix::unistd::fork()} {
+            Ok(fork_result) => fork_result,
+            Err(err) => {
+                eprintln!("Failed to fork: {}", err);
+                nix::unistd::close(pip.0).unwrap();
+                nix::unistd::close(pip.1).unwrap();
+                return String::new();
+            }
+        };
 
-        match unsafe {nix::unistd::fork().expect("failed to fork")} {
+        match fork_result {
             nix::unistd::ForkResult::Parent { child } => {
                 nix::unistd::close(pip.1).unwrap();
-                let mut buf = String::new();
+                let mut buf = Vec::new();
+                // all output has to be read before waiting, since the pipe can only hold so much of it
                 let mut file = unsafe { File::from_raw_fd(pip.0) };
-                waitpid(child, None).unwrap();
-                file.read_to_string(&mut buf).unwrap();
-                nix::unistd::close(pip.0).unwrap();
-                buf.trim().to_string()
+                let result = file.read_to_end(&mut buf);
+                drop(file);
+                while waitpid(child, None) == Err(nix::errno::Errno::EINTR) {}
+                if let Err(err) = result {
+                    eprintln!("Failed to read output: {}", err);
+                }
+                String::from_utf8_lossy(&buf).trim().to_string()
             },
             nix::unistd::ForkResult::Child => {
                 nix::unistd::dup2(pip.1, 1).unwrap();
-- 
2.43.0


From de10da4c6c4127a8c78ffa76b092c0c3f8f821e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 10/72] fix: a dollar sign in double quotes does not panic, and
 substituted output is not evaluated again

---
 src/ast.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index d711ba3..67c615b 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -342,8 +342,8 @@ impl SimpleCommand {
         let mut subshell = String::new();
 
         if chr == '$' {
-            let Some(c) = chars.next() else { panic!("Unexpected EOF") };
             subshell.push(chr);
+            let Some(c) = chars.next() else { return subshell };
             if c == '(' {
                 subshell.push(c);
                 while let Some(c) = chars.next() {
@@ -356,6 +356,9 @@ impl SimpleCommand {
                 
 
             }
+            else {
+                subshell.push(c);
+            }
         }
         else {
             subshell.push(chr);
@@ -658,7 +661,8 @@ impl SimpleCommand {
         let mut new_word = word.to_string();
         Self::cut_quotes(&mut new_word);
         let mut ret = Vec::new();
-        let eval = Self::eval_subshell(&new_word);
+        // cut_quotes has evaluated it already, the output must not be evaluated again
+        let eval = new_word;
         if eval.contains(" ") {
             ret.append(&mut eval.split_whitespace().map(|word| word.to_string()).collect());
         }
-- 
2.43.0


From 539cec72b5bc232bb691fe79c97161103b4959a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 11/72] fix: > truncates, N> redirects descriptor N, and a
 failed redirection is an error message

---
 src/eval.rs | 48 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 190fae5..1ca176e 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -6,8 +6,9 @@ use crate::builtins;
 use crate::shell;
 use crate::trap;
 use nix::errno::Errno;
+use nix::fcntl::{fcntl, FcntlArg, FdFlag};
 use nix::sys::wait::WaitStatus;
-use std::fs::OpenOptions;
+use std::fs::{File, OpenOptions};
 use std::os::unix::io::AsRawFd;
 use std::mem;
 use std::env;
@@ -232,7 +233,10 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
                     close(pip.1).unwrap();
                 }
 
-                eval_prefix_suffix(commands[count].prefix_suffix());
+                if let Err(error) = eval_prefix_suffix(commands[count].prefix_suffix()) {
+                    eprintln!("{}", error);
+                    std::process::exit(1);
+                }
                 
                 //println!("executing: {:?}", process.argv);
                 
@@ -406,15 +410,16 @@ fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Pro
 }
 
 /// This function evaluates a SimpleCommand's Prefix and Suffix.
-fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>)) {
+fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>)) -> Result<(),String> {
     let (prefix, suffix) = prefix_suffix;
     if prefix.is_some() {
-        eval_redirect(&prefix.unwrap().io_redirect);
+        eval_redirect(&prefix.unwrap().io_redirect)?;
         eval_assignment(&prefix.unwrap().assignment);
     }
     if suffix.is_some() {
-        eval_redirect(&suffix.unwrap().io_redirect);
+        eval_redirect(&suffix.unwrap().io_redirect)?;
     }
+    Ok(())
 }
 
 /// This function evaluates an assignment in a SimpleCommand's Prefix.
@@ -426,28 +431,29 @@ fn eval_assignment(assignment: &Vec<String>) {
 }
 
 /// This function evaluates an IoRedirect in a SimpleCommand's Prefix or Suffix.
-fn eval_redirect(redirect: &Vec<IoRedirect>) {
+fn eval_redirect(redirect: &Vec<IoRedirect>) -> Result<(),String> {
     for redir in redirect.iter() {
         if redir.io_file.is_some() {
             let io_file = redir.io_file.as_ref().unwrap();
+            let open_error = |error| format!("{}: {}", io_file.filename, error);
+            let dup_error = |error: Errno| format!("{}: {}", io_file.filename, error);
             match &io_file.redirect_type {
                 RedirectType::Input => {
                     let file = OpenOptions::new()
                         .read(true)
                         .open(&io_file.filename)
-                        .unwrap();
+                        .map_err(open_error)?;
                     
-                    dup2(file.as_raw_fd(), 0).unwrap();
-                    mem::forget(file);
+                    redirect_to(file, redir.io_number.unwrap_or(0)).map_err(dup_error)?;
                 },
                 RedirectType::Output => {
                     let file = OpenOptions::new()
                         .write(true)
                         .create(true)
+                        .truncate(true)
                         .open(&io_file.filename)
-                        .unwrap();
-                    dup2(file.as_raw_fd(), 1).unwrap();
-                    mem::forget(file);
+                        .map_err(open_error)?;
+                    redirect_to(file, redir.io_number.unwrap_or(1)).map_err(dup_error)?;
                 },
                 RedirectType::Append => {
                     let file = OpenOptions::new()
@@ -455,14 +461,26 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) {
                         .append(true)
                         .create(true)
                         .open(&io_file.filename)
-                        .unwrap();
-                    dup2(file.as_raw_fd(), 1).unwrap();
-                    mem::forget(file);
+                        .map_err(open_error)?;
+                    redirect_to(file, redir.io_number.unwrap_or(1)).map_err(dup_error)?;
                 },
                 _ => (),
             }
         }
     }
+    Ok(())
+}
+
+/// This function puts an open file in the place of a file descriptor.
+fn redirect_to(file: File, fd: RawFd) -> Result<(),Errno> {
+    if file.as_raw_fd() == fd {
+        // already there, but it would be closed on exec
+        fcntl(fd, FcntlArg::F_SETFD(FdFlag::empty()))?;
+        mem::forget(file);
+        return Ok(());
+    }
+    dup2(file.as_raw_fd(), fd)?;
+    Ok(())
 }
 
 /// This function checks if a command is a shell builtin.
-- 
2.43.0


From 36c3abf23c732fb1e577d62ac799c78846942b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 12/72] fix: SIGINT does not abort a shell whose stdin is not
 writable

---
 src/trap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trap.rs b/src/trap.rs
index 88b8f0d..072d5ab 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -201,7 +201,8 @@ extern "C" fn on_sig(sig_num: c_int) {
 
 
     if sig_num == signal::SIGINT as c_int && !is_trap_set(signal::SIGINT) {
-        nix::unistd::write(0,&[0xA as u8]).unwrap();
+        // stdin may not be writable, which is no reason to die in the handler
+        let _ = nix::unistd::write(0,&[0xA as u8]);
         //io::stdin().read_line(&mut String::new()).unwrap();
         unsafe {
             if !SUPRESS_SIGINT.load(Ordering::Relaxed) {
-- 
2.43.0


From 0a1ffd015e428471f22960bd326978138493f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 13/72] fix: scripts end at end of file, report errors, and
 scripts and -c leave with the last status

---
 src/main.rs | 50 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ccbd80f..f885545 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -252,32 +252,62 @@ fn interactive_loop() {
 /// This function takes a file name and puts the contents of the file into a buffer.
 /// The buffer is then passed into the parser and evaluated.
 fn script_loop(script_name: &str) {
-    let file = File::open(script_name).unwrap();
+    let file = match File::open(script_name) {
+        Ok(file) => file,
+        Err(err) => {
+            eprintln!("{}: {}", script_name, err);
+            std::process::exit(127);
+        }
+    };
     let mut buf_reader = BufReader::new(file);
     loop {
 
         let mut input = String::new();
-        buf_reader.read_line(&mut input).unwrap();
+        match buf_reader.read_line(&mut input) {
+            Ok(0) => break,
+            Ok(_) => {},
+            Err(err) => {
+                eprintln!("{}: {}", script_name, err);
+                std::process::exit(1);
+            }
+        }
 
 
         let lexer = Lexer::new(&input);        
-        let mut ast = grammar::CompleteCommandParser::new()
-            .parse(&input,lexer)
-            .unwrap();
+        let mut ast = match grammar::CompleteCommandParser::new()
+            .parse(&input,lexer) {
+                Ok(ast) => ast,
+                Err(err) => {
+                    println!("Error: {:?}", err);
+                    continue;
+                }
+            };
 
-        let _result = eval::eval(&mut ast);
+        if let Err(err) = eval::eval(&mut ast) {
+            println!("{}", err);
+        }
+        trap::reap_children();
 
     }
+    std::process::exit(eval::get_exit_code());
 }
 
 /// This function takes in the commandline arguments as a &str and evaluates it.
 fn read_from_args(input: &str) {
     let lexer = Lexer::new(&input);        
-    let mut ast = grammar::CompleteCommandParser::new()
-        .parse(&input,lexer)
-        .unwrap();
+    let mut ast = match grammar::CompleteCommandParser::new()
+        .parse(&input,lexer) {
+            Ok(ast) => ast,
+            Err(err) => {
+                println!("Error: {:?}", err);
+                std::process::exit(2);
+            }
+        };
 
-    let _result = eval::eval(&mut ast);
+    if let Err(err) = eval::eval(&mut ast) {
+        println!("{}", err);
+    }
+    std::process::exit(eval::get_exit_code());
 }
 
 
-- 
2.43.0


From 3040c9f20aae28440ec731f17b627ba3e0b4bbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 14/72] fix: fg and bg continue only live processes, wait
 properly and do not panic on bad operands

---
 src/builtins.rs | 40 +++++++++++++++++++++++++---------------
 src/eval.rs     | 22 +++++++++++++---------
 2 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 8e451d9..f532171 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -111,19 +111,23 @@ pub fn fgbg(command: &SimpleCommand) -> Result<(), std::io::Error> {
     trap::reap_children();
     let id;
     let id_type;
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "fgbg needs an argument"));
     }
-    if command.suffix.as_ref().unwrap().word[0].chars().nth(0).unwrap() == '%' {
+    let no_job = |_| std::io::Error::new(std::io::ErrorKind::Other, "No such job");
+    if command.suffix.as_ref().unwrap().word[0].starts_with('%') {
         let mut chars = command.suffix.as_ref().unwrap().word[0].chars();
         chars.next();
-        id = chars.as_str().parse().unwrap();
+        id = chars.as_str().parse::<i32>().map_err(no_job)?;
         id_type = IdType::Jid;
     } else {
-        id = command.suffix.as_ref().unwrap().word[0].parse::<u32>().unwrap();
+        id = command.suffix.as_ref().unwrap().word[0].parse::<i32>().map_err(no_job)?;
         id_type = IdType::Pid;
     }
 
+    if id <= 0 {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "No such job"));
+    }
     if command.name == "fg" {
         fg(id.try_into().unwrap(), id_type)?;
     } else {
@@ -157,18 +161,28 @@ fn fg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
     }
     
     
-    job.as_ref().unwrap().borrow_mut().state = jobs::JobState::Running;
     job.as_ref().unwrap().borrow_mut().background = false;
-
-    for process in job.as_ref().unwrap().borrow().processes.iter() {
-        kill(process.pid, Signal::SIGCONT).unwrap();
-    }
+    continue_job(job.as_ref().unwrap());
     println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
-    jobs::wait_for_job(job);
+    let status = jobs::wait_for_job(job);
+    eval::set_exit_status_from_wait(status);
     Ok(())
 }
 
+/// This function continues all processes of a job that have not terminated.
+fn continue_job(job: &Rc<RefCell<jobs::Job>>) {
+    let mut job = job.borrow_mut();
+    for process in job.processes.iter_mut() {
+        if process.terminated() {
+            continue;
+        }
+        process.status = None;
+        let _ = kill(process.pid, Signal::SIGCONT);
+    }
+    job.update_state();
+}
+
 /// This is the 'bg' command of the shell.
 /// It is used to bring a stopped job to the background.
 /// It takes a SimpleCommand with a suffix that is either a valid Pid or a job id if it starts with a '%'.
@@ -190,12 +204,8 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
             }
         }
     }
-    job.as_ref().unwrap().borrow_mut().state = jobs::JobState::Running;
     job.as_ref().unwrap().borrow_mut().background = true;
-    
-    for process in job.as_ref().unwrap().borrow().processes.iter() {
-        kill(process.pid, Signal::SIGCONT).unwrap();
-    }
+    continue_job(job.as_ref().unwrap());
 
     println!("[{}] {}", job.as_ref().unwrap().borrow().job_id, job.as_ref().unwrap().borrow());
 
diff --git a/src/eval.rs b/src/eval.rs
index 1ca176e..739d9d1 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -33,6 +33,18 @@ pub fn set_exit_status(status: i32) {
         EXIT_STATUS.store(status, Ordering::Relaxed);
     }
 }
+/// sets the exit status of the last command from what waiting for it gave
+pub fn set_exit_status_from_wait(status: WaitStatus) {
+    match status {
+        WaitStatus::Exited(_, status) => {
+            set_exit_status(status);
+        },
+        WaitStatus::Signaled(_, signal, _) | WaitStatus::Stopped(_, signal) => {
+            set_exit_status(128 + signal as i32);
+        },
+        _ => (),
+    }
+}
 /// gets the exit code of the last command
 pub fn get_exit_code() -> i32 {
     unsafe {
@@ -311,15 +323,7 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
             }
             shell::delete_job(id);
 
-            match status {
-                WaitStatus::Exited(_, status) => {
-                    set_exit_status(status);
-                },
-                WaitStatus::Signaled(_, signal, _) | WaitStatus::Stopped(_, signal) => {
-                    set_exit_status(128 + signal as i32);
-                },
-                _ => (),
-            }
+            set_exit_status_from_wait(status);
         }
         else if background && proc_count > 0  && job.borrow().processes.len() > 0 {
             println!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
-- 
2.43.0


From 4f28194ee458f688ea324e5f9fb7ab8f335781e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 15/72] fix: commands start with the default action for SIGPIPE

---
 src/trap.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trap.rs b/src/trap.rs
index 072d5ab..3e3613a 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -465,6 +465,8 @@ pub fn remove_handlers() {
         signal::sigaction(Signal::SIGTTIN, &sig_action).unwrap();
         signal::sigaction(Signal::SIGTTOU, &sig_action).unwrap();
         signal::sigaction(Signal::SIGCHLD, &sig_action).unwrap();
+        // ignored by the Rust runtime
+        signal::sigaction(Signal::SIGPIPE, &sig_action).unwrap();
     }
 }
 
-- 
2.43.0


From d64101196ea69e207f497c2158050f848ec7175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 16/72] fix: a failing exec builtin leaves the signal handlers
 of the shell installed

---
 src/eval.rs |  7 +++++--
 src/trap.rs | 13 +++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 739d9d1..2acfcff 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -714,8 +714,6 @@ pub fn temp_execve(process: &mut Process,env: &[CString]) -> Result<i32,String>
     //
     //set assignments
   
-    jobs::fork_reset();
-
     let argv0 = match shell::lookup_command(&process.argv0) {
         Some(cmd) => cmd,
         None => {
@@ -725,12 +723,17 @@ pub fn temp_execve(process: &mut Process,env: &[CString]) -> Result<i32,String>
 
     let command = CString::new(argv0).unwrap();
 
+    // the handlers are removed by exec itself, and still needed if it fails
+    trap::interrupts_on();
+    trap::ignore_sigpipe(false);
 
     match nix::unistd::execve(&command, &process.argv, &env) {
         Ok(_) => {
             unreachable!();
         },
         Err(e) => {
+            // this is still the shell
+            trap::ignore_sigpipe(true);
             return Err(format!("Failed to execute: {}", e));
         }
     }
diff --git a/src/trap.rs b/src/trap.rs
index 3e3613a..5a0eadf 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -441,6 +441,19 @@ pub fn sig_suspend(mask: &signal::SigSet) {
     }*/
 }
 
+/// This function sets if SIGPIPE is ignored, which the Rust runtime does
+pub fn ignore_sigpipe(ignore: bool) {
+    let sig_action = signal::SigAction::new(
+        if ignore { signal::SigHandler::SigIgn } else { signal::SigHandler::SigDfl },
+        signal::SaFlags::empty(),
+        signal::SigSet::empty(),
+    );
+
+    unsafe {
+        signal::sigaction(Signal::SIGPIPE, &sig_action).unwrap();
+    }
+}
+
 /// This function removes all signal handlers
 /// however it is not complete
 /// # Todo
-- 
2.43.0


From a02062be4a87bb01a31b6a95a30a43df4bb74842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 17/72] fix: cd, exit, return, pwd and source report bad
 operands and failures instead of panicking

---
 src/builtins.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index f532171..942ab9d 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -51,8 +51,8 @@ pub fn change_directory(command: &SimpleCommand) -> Result<(), std::io::Error> {
     
     trap::interrupts_off();
     let path;
-    if command.suffix.is_none() {
-        path = env::var("HOME").unwrap();
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
+        path = env::var("HOME").map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "cd: HOME not set"))?;
     } else {
         path = command.suffix.as_ref().unwrap().word[0].to_string();
     }
@@ -73,7 +73,13 @@ pub fn quit(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
     //let chars = command.suffix.as_ref().unwrap().word[0].chars();
     //chars.next();
-    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>().unwrap();
+    let code = match command.suffix.as_ref().unwrap().word[0].parse::<i32>() {
+        Ok(code) => code,
+        Err(_) => {
+            eprintln!("exit: {}: numeric argument required", command.suffix.as_ref().unwrap().word[0]);
+            2
+        }
+    };
 
     exit(code);
 }
@@ -88,7 +94,8 @@ pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
     //let chars = command.suffix.as_ref().unwrap().word[0].chars();
     //chars.next();
-    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>().unwrap();
+    let code = command.suffix.as_ref().unwrap().word[0].parse::<i32>()
+        .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "return: numeric argument required"))?;
 
     eval::set_exit_status(code);
     Ok(())
@@ -415,7 +422,7 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// This is the 'pwd' command of the shell.
 /// It prints out the current working directory.
 pub fn pwd() -> Result<(), std::io::Error> {
-    let path = env::current_dir().unwrap();
+    let path = env::current_dir()?;
     println!("{}", path.display());
     Ok(())
 }
@@ -699,7 +706,7 @@ pub fn source(command: &SimpleCommand) -> Result<(),std::io::Error> {
     let mut file = file.unwrap();
 
     let mut contents = String::new();
-    file.read_to_string(&mut contents).unwrap();
+    file.read_to_string(&mut contents)?;
 
     let mut lexer = Lexer::new(contents.as_str());
     let mut ast = match grammar::CompleteCommandParser::new().parse(contents.as_str(),lexer) {
-- 
2.43.0


From ae980d5f8a646fa2699f46b75bd8654d7a838dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 18/72] fix: builtins without operands do not panic the shell

---
 src/builtins.rs | 18 +++++++++++++-----
 src/context.rs  |  8 ++++++--
 src/shell.rs    |  2 +-
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 942ab9d..27f5f9c 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -225,7 +225,7 @@ fn bg(id: usize, id_type: IdType) -> Result<(), std::io::Error> {
 /// If the suffix is empty, it will print out all of the current aliases.
 /// If the suffix is '-p', it will print out all of the current aliases.
 pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         shell::display_aliases();
         return Ok(());
     }
@@ -249,7 +249,7 @@ pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It takes a SimpleCommand with a suffix that is a string of the form 'alias'.
 /// If the suffix is '-a', it will remove all of the current aliases.
 pub fn unalias(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "unalias needs an argument"));
     }
     if command.suffix.as_ref().unwrap().word.len() > 1 {
@@ -392,7 +392,7 @@ pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It evaluates a string as a command.
 /// It takes a SimpleCommand with a suffix that is a string of the form 'string'.
 pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if command.suffix.is_none() {
+    if command.suffix.is_none() || command.suffix.as_ref().unwrap().word.is_empty() {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "eval needs an argument"));
     }
 
@@ -458,6 +458,10 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
 	}
     }
 
+    if command.suffix.as_ref().unwrap().word.len() == pos {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "unset needs an argument"));
+    }
+
     match flags {
         Flags::Variable => {
             shell::remove_var(command.suffix.as_ref().unwrap().word[pos].as_str());
@@ -504,7 +508,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly: invalid option"));
         }
     }
-    if command.suffix.as_ref().unwrap().word[pos].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word.len() > pos && command.suffix.as_ref().unwrap().word[pos].as_str().contains('-') {
         if command.suffix.as_ref().unwrap().word[pos].as_str().contains('p') {
             print = true;
             pos += 1;
@@ -592,7 +596,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
             }
         }
     }
-    if suffix.word[pos].contains('-') {
+    if suffix.word.len() > pos && suffix.word[pos].contains('-') {
         if suffix.word[pos].contains('c') {
             empty_env = true;
             pos += 1;
@@ -610,6 +614,10 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         }
     }
 
+    if suffix.word.len() <= pos {
+        return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec needs an argument"));
+    }
+
     log!("empty_env: {}, dash: {}, rename: {}, pos: {}", empty_env, dash, rename, pos);
 
     let mut args = Vec::new();
diff --git a/src/context.rs b/src/context.rs
index 7609ece..a88121d 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -279,7 +279,9 @@ impl ContextManager {
             let context_name = split.next().unwrap();
             let var_name = split.next().unwrap();
             if let Some(context) = self.get_context_by_name(context_name) {
-                context.borrow_mut().get_var(var_name).unwrap().borrow_mut().readonly = true;
+                if let Some(var) = context.borrow().get_var(var_name) {
+                    var.borrow_mut().readonly = true;
+                }
             }
             return;
         }
@@ -290,7 +292,9 @@ impl ContextManager {
                 return;
             }
         }
-        self.get_context().borrow_mut().get_var(name).unwrap().borrow_mut().readonly = true;
+        if let Some(var) = self.get_context().borrow().get_var(name) {
+            var.borrow_mut().readonly = true;
+        }
     }
 
     /// Adds a variable to a particular context on the stack.
diff --git a/src/shell.rs b/src/shell.rs
index 5fb2395..474d005 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -176,7 +176,7 @@ impl Shell {
             None => None,
             Some(alias) => {
                 let mut args = alias.split_whitespace();
-                let command = args.next().unwrap();
+                let command = args.next()?;
                 let args: Vec<String> = args.map(|s| s.to_string()).collect();
                 if args.is_empty() {
                     Some((command.to_string(), None))
-- 
2.43.0


From bee14614fdef380cc1db130fa1e89f47d203c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 19/72] fix: ! inverts the status of a pipeline, and does not
 keep it in the foreground

---
 src/eval.rs         | 9 ++++++++-
 src/grammar.lalrpop | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 2acfcff..804e39f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -125,11 +125,18 @@ fn eval_and_or(and_or: &mut AndOr) -> Result<i32,String> {
 /// handle it.
 /// Interupts are blocked during the fork and exec part to prevent being interupted by a signal.
 fn eval_pipeline(pipeline: &mut Pipeline) -> Result<i32,String> {
-    let result = eval_pipeline_blocked(pipeline);
+    let mut result = eval_pipeline_blocked(pipeline);
 
     //unblock interrupts, also after a builtin or an error
     trap::interrupts_on();
 
+    if pipeline.bang && !pipeline.background {
+        if let Ok(status) = &mut result {
+            *status = if *status == 0 {1} else {0};
+            set_exit_status(*status);
+        }
+    }
+
     result
 }
 
diff --git a/src/grammar.lalrpop b/src/grammar.lalrpop
index c71df9e..07df683 100644
--- a/src/grammar.lalrpop
+++ b/src/grammar.lalrpop
@@ -78,7 +78,7 @@ Pipeline: ast::Pipeline = {
     <ps:PipelineSeq> => ast::Pipeline{bang: false, pipe_sequence: ps, background: false},
     <bang:"bang"> <ps:PipelineSeq> => ast::Pipeline{bang: true, pipe_sequence: ps, background: false},
     <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: false, pipe_sequence: ps, background: true},
-    <bang:"bang"> <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: true, pipe_sequence: ps, background: false},
+    <bang:"bang"> <ps:PipelineSeq> <op:CmdBackgroundOp> => ast::Pipeline{bang: true, pipe_sequence: ps, background: true},
 }
 
 PipelineSeq: ast::PipeSequence = {
-- 
2.43.0


From 250bc6fb660e30d7294cd3ed699182b141325e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 20/72] fix: exporting an existing variable puts it into the
 environment of commands

---
 src/builtins.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 27f5f9c..d1fab05 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -363,7 +363,9 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
                 }
             }
             else {
-                let temp = format!("{}={}",word,var.unwrap());
+                let var = var.unwrap();
+                env::set_var(word, &var);
+                let temp = format!("{}={}",word,var);
                 shell::get_env_context().borrow_mut().add_var(temp.as_str());
             }
             continue;//TODO: make this read argument
-- 
2.43.0


From 9788852d1b6c6d60d26f458df7c7bdbd505a87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 21/72] fix: export NAME=value reaches later expansions, and
 all assignments of a line count

---
 src/builtins.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index d1fab05..0847e8b 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -374,6 +374,8 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
         let key = split.next().unwrap();
         let value = split.next().unwrap();
         shell::add_var(word,0);
+        // also where a variable of that name hides the exported one
+        shell::add_var_context(word);
         env::set_var(key, &trim(value));
     }
 
@@ -385,7 +387,9 @@ pub fn assignment(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
 
 
-    shell::add_var_context(command.prefix.as_ref().unwrap().assignment[0].as_str());
+    for assignment in command.prefix.as_ref().unwrap().assignment.iter() {
+        shell::add_var_context(assignment.as_str());
+    }
     Ok(())
 }
 
-- 
2.43.0


From bc7dba8587a3df4d1e059b93303be88ada385ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 22/72] fix: functions take part in pipelines, run to their end
 in children and give their last status

---
 src/eval.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 804e39f..2bb6ff8 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -169,7 +169,8 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
    
     let mut remove_index: Vec<usize> = Vec::new();
     
-    if !background {
+    // a function that is part of a longer pipeline runs in a child like any other stage
+    if !background && commands.len() == 1 {
         for (index,command) in commands.iter_mut().enumerate() {
             if shell::is_function(&command.name) {
                 remove_index.push(index);
@@ -183,12 +184,6 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
                         std::process::exit(1);
                     }
                 }
-                if shell::get_forked() {
-                    std::process::exit(0);
-                }
-                else {
-                    set_exit_status(0);
-                }
             }
 
         }
@@ -269,7 +264,7 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
                             std::process::exit(1);
                         }
                     }
-                    std::process::exit(0);
+                    std::process::exit(get_exit_code());
                 }
                 else {
                     match temp_exec(process) {
@@ -649,7 +644,7 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
     eval_compound_command(&mut function.compound_command);
     shell::pop_context();
 
-    Ok(0)//todo: change this to return the right exit code
+    Ok(get_exit_code())
 }
 
 /// This function evaluates a CompoundCommand.
-- 
2.43.0


From fc1bc3c29178b203c0ee5f63fae95f1ce7c00016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 23/72] fix: a failing builtin sets the status instead of
 dropping the rest of the line

---
 src/eval.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 2bb6ff8..8cf592e 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -164,7 +164,7 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
     }
     
     if processes.len() == 0 {
-        return Ok(0);
+        return Ok(get_exit_code());
     }
    
     let mut remove_index: Vec<usize> = Vec::new();
@@ -373,6 +373,7 @@ fn eval_function_definition(function_definition: &mut FunctionDefinition) -> Res
     let name = &function_definition.name;
     let body = function_definition.function_body.clone();
     shell::add_function(&name, body);
+    set_exit_status(0);
     Ok(None)
 }
 
@@ -532,14 +533,18 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
     command.eval();
 
 
+    // these leave the status of what they ran or were given
+    if !matches!(command.name.as_str(), "exit" | "return" | "eval" | "." | "source") {
+        set_exit_status(0);
+    }
+
     let result = call_builtin(command);
 
     if result.is_err() {
-        return Err(format!("{}", result.err().unwrap()));
-    }
-    else {
-        return Ok(None)
+        println!("{}", result.err().unwrap());
+        set_exit_status(1);
     }
+    return Ok(None);
     
 }
 
-- 
2.43.0


From 0f9a05bca6c9574435242d23f74848e772dcf038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 24/72] fix: blank lines, comment lines and newlines after a
 semicolon are no syntax errors

---
 src/lexer.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 4e0943d..724f48f 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -123,6 +123,8 @@ impl Display for Token<'_> {
 
 pub struct Lexer<'input> {
     send_eof: bool,
+    /// Whether the first token has been found, newlines before it mean nothing
+    started: bool,
     input: &'input str,
     chars: CharIndices<'input>,
     lookahead: Option<(usize, char, usize)>,
@@ -136,6 +138,7 @@ impl<'input> Lexer<'input> {
         let lookahead = next.map(|n| (n.0, n.1, n.0 + n.1.len_utf8()));
         Lexer {
             send_eof: false,
+            started: false,
             input,
             chars,
             lookahead,
@@ -150,9 +153,18 @@ impl<'input> Iterator for Lexer<'input> {
 
         while let Some((start, chr, end)) = self.advance() {
             //eprintln!("{}: {}", start, chr);
+            let first = !self.started;
+            self.started = self.started || !(chr.is_whitespace() || chr == '#');
+            if first && chr == '\n' {
+                continue;
+            }
             let token = match chr {
                 '\n' => Some(self.newline_list(start, end)),
-                ';' => Some(Ok((start, Token::SemiColon, end))),
+                ';' => {
+                    // a newline after it adds nothing
+                    let _ = self.newline_list(start, end);
+                    Some(Ok((start, Token::SemiColon, end)))
+                },
                 '|' => {
                     match self.lookahead {
                         Some((_, '|', _)) => {
@@ -349,7 +361,14 @@ impl<'input> Lexer<'input> {
         while let Some((_, chr, _)) = self.lookahead {
             //eprintln!("chr: {}", chr);
             match chr {
-                '\n' => self.advance(),
+                // blank lines and comment lines between commands belong to the list
+                chr if chr.is_whitespace() => self.advance(),
+                '#' => {
+                    while matches!(self.lookahead, Some((_, chr, _)) if chr != '\n') {
+                        self.advance();
+                    }
+                    self.lookahead
+                },
                 _ => break,
             };
         }
-- 
2.43.0


From d873c4ade7bc279564e789adec64de45414a10df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 25/72] fix: redirections of a command without operands are not
 dropped

---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 67c615b..564774f 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -625,7 +625,7 @@ impl SimpleCommand {
         }
         self.name = words.remove(0);
         
-        if self.suffix.is_none() || self.suffix.as_ref().unwrap().word.is_empty() {
+        if self.suffix.is_none() {
             self.suffix = Some(Suffix {
                 io_redirect: Vec::new(),
                 word: words,
-- 
2.43.0


From 46555a55c50ab65bc9aed08e81620bddab0fe424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 26/72] fix: job notices go to standard error, not into the
 output of pipelines

A function in a pipeline runs in a copy of the shell; when a signal ended one
of its commands the notice was written into the pipe, and the copy panicked
if the reader was gone.
---
 src/jobs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 991ebc2..28ebae3 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -504,7 +504,7 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
             let output = format_status(result, true);
 
             if output.is_some() {
-                println!("{}", output.unwrap());
+                eprintln!("{}", output.unwrap());
             }
 
         }
@@ -584,7 +584,7 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         let output = format_status(result, true);
 
         if output.is_some() {
-            println!("{}", output.unwrap());
+            eprintln!("{}", output.unwrap());
         }
 
     }
-- 
2.43.0


From 1e64239419928f72a78b9bcafe30d2117bea3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 27/72] fix: command substitution collects standard output only

Notices and error messages became part of the arguments.
---
 src/ast.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 564774f..35d6275 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -437,7 +437,6 @@ impl SimpleCommand {
             },
             nix::unistd::ForkResult::Child => {
                 nix::unistd::dup2(pip.1, 1).unwrap();
-                nix::unistd::dup2(pip.1, 2).unwrap();
                 nix::unistd::close(pip.1).unwrap();
                 nix::unistd::close(pip.0).unwrap();
                 let _ = crate::eval::eval(&mut ast);
-- 
2.43.0


From 0a4d56aa2842a48293b348ffec5cc6adfc090168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 28/72] fix: assignments before a command reach its environment
 without their quotes and uncut

---
 src/builtins.rs | 2 +-
 src/eval.rs     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 0847e8b..055457f 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -32,7 +32,7 @@ enum IdType {
 }
 
 /// This function trims quotes off of its input.
-fn trim(word: &str) -> String {
+pub fn trim(word: &str) -> String {
     if (word.starts_with("\"") && word.ends_with("\"")) || (word.starts_with("'") && word.ends_with("'")){
         let mut chars = word.chars();
         chars.next();
diff --git a/src/eval.rs b/src/eval.rs
index 8cf592e..5266303 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -432,8 +432,9 @@ fn eval_prefix_suffix(prefix_suffix: (Option<&Prefix>, Option<&Suffix>)) -> Resu
 /// This function evaluates an assignment in a SimpleCommand's Prefix.
 fn eval_assignment(assignment: &Vec<String>) {
     for assign in assignment.iter() {
-        let assign = assign.split('=').collect::<Vec<&str>>();
-        env::set_var(&assign[0], &assign[1]);
+        if let Some((name, value)) = assign.split_once('=') {
+            env::set_var(name, builtins::trim(value));
+        }
     }
 }
 
-- 
2.43.0


From c8e29444bdd36e42a499b27768ae5d88da1a9314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 29/72] fix: variable values keep everything after a second
 equals sign

---
 src/ast.rs      | 4 ++--
 src/builtins.rs | 2 +-
 src/context.rs  | 4 ++--
 src/var.rs      | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 35d6275..45e2473 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -283,7 +283,7 @@ impl SimpleCommand {
         if self.prefix.is_some() {
             for word in self.prefix.as_mut().unwrap().assignment.iter_mut() {
                 if word.contains("$") {
-                    let mut split = word.split("=");
+                    let mut split = word.splitn(2, "=");
                     let var = split.next().unwrap();
                     let val = split.next().unwrap();
                     let val = match shell::expand_var(val) {
@@ -529,7 +529,7 @@ impl SimpleCommand {
         if self.prefix.is_some() {
             for word in self.prefix.as_mut().unwrap().assignment.iter_mut() {
                 if (word.contains("$(") && word.ends_with(")")) || (word.contains("`") && word.ends_with("`")) {
-                    let mut split = word.split("=");
+                    let mut split = word.splitn(2, "=");
                     let var = split.next().unwrap();
                     let val = split.next().unwrap();
                     let val = Self::eval_subshell(val);
diff --git a/src/builtins.rs b/src/builtins.rs
index 055457f..24d50ed 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -370,7 +370,7 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
             }
             continue;//TODO: make this read argument
         }
-        let mut split = word.split('=');
+        let mut split = word.splitn(2, '=');
         let key = split.next().unwrap();
         let value = split.next().unwrap();
         shell::add_var(word,0);
diff --git a/src/context.rs b/src/context.rs
index a88121d..b89e94b 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -522,7 +522,7 @@ impl ContextUtils<&str> for Context {
     /// * `var` - The &str set that is to be added to the context.
     fn add_var(&mut self, var: &str) {
         let (name, value) = if var.contains("=") {
-            let mut split = var.split("=");
+            let mut split = var.splitn(2, "=");
             (split.next().unwrap(), split.next().unwrap())
         } else {
             (var, "")
@@ -545,7 +545,7 @@ impl ContextUtils<&str> for Context {
 
     fn add_var_readonly(&mut self, var: &str) {
         let (name, value) = if var.contains("=") {
-            let mut split = var.split("=");
+            let mut split = var.splitn(2, "=");
             (split.next().unwrap(), split.next().unwrap())
         } else {
             (var, "")
diff --git a/src/var.rs b/src/var.rs
index 1ac2104..a7cf714 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -216,7 +216,7 @@ impl VarData {
 impl VarDataUtils<&str> for VarData {
     fn update_path(&mut self, path: &str) {
         let path = if path.contains("=") {
-            let mut split = path.split("=");
+            let mut split = path.splitn(2, "=");
             split.next();
             split.next().unwrap()
         } else {
@@ -231,7 +231,7 @@ impl VarDataUtils<&str> for VarData {
 
     fn add_var(&mut self, var: &str,pos: isize) {
         let (name, value) = if var.contains("=") {
-            let mut split = var.split("=");
+            let mut split = var.splitn(2, "=");
             (split.next().unwrap(), split.next().unwrap())
         } else {
             (var, "")
-- 
2.43.0


From 9649c626ad7439f6a66e4bb2e020ae79565e6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 30/72] fix: a variable on the right of an assignment is
 expanded

---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 45e2473..4cfecd1 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -286,7 +286,7 @@ impl SimpleCommand {
                     let mut split = word.splitn(2, "=");
                     let var = split.next().unwrap();
                     let val = split.next().unwrap();
-                    let val = match shell::expand_var(val) {
+                    let val = match val.strip_prefix('$').and_then(shell::expand_var) {
                         Some(expanded) => {
                             expanded
                         }
-- 
2.43.0


From 9f417b5707aaca7a5fca99645aa7de6ad0179b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 31/72] fix: the history file stays where the session started
 when the shell changes its directory

---
 src/shell.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shell.rs b/src/shell.rs
index 474d005..1c6f861 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -164,7 +164,11 @@ impl Shell {
 
     /// This function is used to set the history location.
     pub fn set_history_location(&mut self, location: &str) {
-        self.history_location = location.to_string();
+        // a relative location must not follow the shell around when it changes its directory
+        self.history_location = match std::env::current_dir() {
+            Ok(dir) => dir.join(location).to_string_lossy().into_owned(),
+            Err(_) => location.to_string(),
+        };
     }
 
     /// This function returns None if no alias is found for the given input.
-- 
2.43.0


From 318a33ce682fb6c298439b06a3d8c51929b4bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 32/72] fix: only the shell itself, not a forked copy of it,
 saves the history

---
 src/shell.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/shell.rs b/src/shell.rs
index 1c6f861..4db4a2f 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -157,6 +157,10 @@ impl Shell {
     /// This is a wrapper around the readline editor's save_history function.
     /// It should get called by any function that causes the shell to exit.
     pub fn save_history(&self) {
+        // a forked copy of the shell knows only the lines entered before the fork
+        if getpid() != self.root_pid {
+            return;
+        }
         if self.readline.borrow_mut().save_history(&self.history_location).is_err() {
             eprintln!("Could not save history.");
         }
-- 
2.43.0


From 0fea9ce3eb909d8e73f42066e99064867613118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 33/72] fix: a window resize reported by the line editor does
 not end the shell

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index f885545..a0596f7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -197,6 +197,9 @@ fn interactive_loop() {
             Err(ReadlineError::Interrupted) => {
                 continue;
             },
+            Err(ReadlineError::WindowResized) => {
+                continue;
+            },
             Err(ReadlineError::Eof) => {
                 break;
             },
-- 
2.43.0


From d7fc43559d5d910af41f73eae0c50fba9a6e9a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 34/72] fix: an argument with many digits does not crash a
 function call

---
 src/context.rs | 38 --------------------------------------
 1 file changed, 38 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index b89e94b..982aa21 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -529,16 +529,6 @@ impl ContextUtils<&str> for Context {
         };
 
         let var_struct = Var::new(name, &Self::trim(value));
-    
-        let key = if var.chars().nth(0).unwrap().to_digit(10).is_some() {
-            var.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
 
         self.add_var(var_struct);
     }
@@ -552,15 +542,6 @@ impl ContextUtils<&str> for Context {
         };
 
         let mut var_struct = Var::new(name, &Self::trim(value));
-    
-        let key = if var.chars().nth(0).unwrap().to_digit(10).is_some() {
-            var.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
 
         var_struct.readonly = true;
         
@@ -577,16 +558,6 @@ impl ContextUtils<(&str, &str)> for Context {
     fn add_var(&mut self, (name, value): (&str, &str)) {
         let var_struct = Var::new(name, &Self::trim(value));
 
-        let key = if name.chars().nth(0).unwrap().to_digit(10).is_some() {
-            name.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
-
         self.add_var(var_struct);
     }
 
@@ -594,15 +565,6 @@ impl ContextUtils<(&str, &str)> for Context {
     fn add_var_readonly(&mut self, (name, value): (&str, &str)) {
         let mut var_struct = Var::new(name, &Self::trim(value));
 
-        let key = if name.chars().nth(0).unwrap().to_digit(10).is_some() {
-            name.chars().filter(|c| {
-                (*c == '0') | (*c == '1') | (*c == '2') | (*c == '3') | (*c == '4') | (*c == '5') | (*c == '6') | (*c == '7') | (*c == '8') | (*c == '9')
-            }).collect::<String>().parse::<usize>().unwrap().to_string()
-        }
-        else {
-            name.to_string()
-        };
-
         var_struct.readonly = true;
 
         self.add_var(var_struct);
-- 
2.43.0


From 0fd5b983f22925e3bb71407b826ca5aa938531e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 35/72] fix: printing a readonly variable does not recurse
 without end

---
 src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 982aa21..57d782b 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -47,7 +47,7 @@ impl Var {
 }*/
 impl Display for Var {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}", self.to_string())
+        write!(f, "{}={}", self.name, self.value)
     }
 }
 
-- 
2.43.0


From 6e9c9928b72fb9660a80d441b2a2c5d1f741b007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 36/72] fix: an empty quoted command name does not crash the
 shell

---
 src/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 4cfecd1..d003f30 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -622,7 +622,8 @@ impl SimpleCommand {
                 words.push(word.to_string());
             }
         }
-        self.name = words.remove(0);
+        // an empty quoted name leaves no word at all
+        self.name = if words.is_empty() { String::new() } else { words.remove(0) };
         
         if self.suffix.is_none() {
             self.suffix = Some(Suffix {
-- 
2.43.0


From 35e7dbba927270fa8dd766b572fd87a2598e7210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 37/72] fix: looking up a command without a PATH does not crash

---
 src/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 57d782b..40d603e 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -304,7 +304,8 @@ impl ContextManager {
 
     /// Looks up a command in the PATH variable.
     pub fn lookup_command(&self, cmd: &str) -> Option<String> {
-        for path in self.context_stack.first().unwrap().borrow().get_var("PATH").unwrap().borrow().value.split(":") {
+        let path = self.context_stack.first().unwrap().borrow().get_var("PATH")?;
+        for path in path.borrow().value.split(":") {
             let path = format!("{}/{}", path, cmd);
             let metadata = std::fs::metadata(&path);
             if metadata.is_ok() {
-- 
2.43.0


From 083e1cc94729d386288b8e792826c42f7d01cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 38/72] fix: exporting a variable without a name does not crash
 the shell

---
 src/builtins.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/builtins.rs b/src/builtins.rs
index 24d50ed..2a62d31 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -373,6 +373,9 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
         let mut split = word.splitn(2, '=');
         let key = split.next().unwrap();
         let value = split.next().unwrap();
+        if key.is_empty() {
+            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("export: {}: not a valid name", word)));
+        }
         shell::add_var(word,0);
         // also where a variable of that name hides the exported one
         shell::add_var_context(word);
-- 
2.43.0


From 0d2621373b14bb2d8563ff74979fb8d80b44f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 39/72] fix: a function call leaves the arguments of its caller
 alone

---
 src/eval.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 5266303..4634488 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -3,6 +3,7 @@ use crate::jobs::Process;
 use std::ffi::CString;
 use crate::jobs;
 use crate::builtins;
+use crate::context::ContextUtils;
 use crate::shell;
 use crate::trap;
 use nix::errno::Errno;
@@ -632,7 +633,9 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
     //eprintln!("{:?}", function.clone().unwrap());
     //eprintln!("{:?}", command);
     shell::push_context_new();
-    shell::add_var_context(&format!("0={}", command.name));
+    // these belong to this call, those of a calling function stay as they are
+    let context = shell::get_current_context();
+    context.borrow_mut().add_var(format!("0={}", command.name).as_str());
     //eprintln!("0={}", command.name);
     if command.suffix.is_some() {
         let suffix = command.suffix.as_ref().unwrap();
@@ -641,7 +644,7 @@ fn eval_function(command: &mut SimpleCommand) -> Result<i32,&'static str> {
                 break;
             }
             //eprintln!("{}={}", i+1, arg);
-            shell::add_var_context(&format!("{}={}", i+1, arg));
+            context.borrow_mut().add_var(format!("{}={}", i+1, arg).as_str());
         }
     }
 
-- 
2.43.0


From ce55ebca47f91af932659b8aa85d0cb70d082e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 40/72] fix: a NUL character in a command does not crash the
 shell

---
 src/ast.rs  |  8 ++++++++
 src/eval.rs | 10 +++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index d003f30..1c4223b 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -762,6 +762,14 @@ impl SimpleCommand {
 
 
 
+    /// A NUL character can not be passed on to a program or put into the environment.
+    pub fn has_nul(&self) -> bool {
+        let has_nul = |words: &Vec<String>| words.iter().any(|word| word.contains('\0'));
+        self.name.contains('\0')
+            || self.prefix.as_ref().map_or(false, |prefix| has_nul(&prefix.assignment))
+            || self.suffix.as_ref().map_or(false, |suffix| has_nul(&suffix.word))
+    }
+
     pub fn argv(&self) -> Vec<CString> {
         let mut argv = Vec::new();
         argv.push(CString::new(self.name.clone()).unwrap());
diff --git a/src/eval.rs b/src/eval.rs
index 4634488..3959e93 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -404,7 +404,11 @@ fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Pro
     simple_command.alias_lookup();
     simple_command.expand_vars();
     simple_command.eval();
-   
+
+    if simple_command.has_nul() {
+        set_exit_status(1);
+        return Err(format!("{}: argument contains a NUL character", simple_command.name.escape_debug()));
+    }
     
 
     //log!("eval_simple_command: {:?}", simple_command);
@@ -534,6 +538,10 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
     command.expand_vars();
     command.eval();
 
+    if command.has_nul() {
+        set_exit_status(1);
+        return Err(format!("{}: argument contains a NUL character", command.name));
+    }
 
     // these leave the status of what they ran or were given
     if !matches!(command.name.as_str(), "exit" | "return" | "eval" | "." | "source") {
-- 
2.43.0


From 7737396be7ee30ebd592400111ff4781eb36130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 41/72] fix: unsetting the prompt does not crash the shell

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a0596f7..3fc0fd2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -188,7 +188,7 @@ fn interactive_loop() {
 
         trap::reap_children();
 
-        let readline = rl.borrow_mut().readline(shell::expand_var("PS1").unwrap().as_str());
+        let readline = rl.borrow_mut().readline(shell::expand_var("PS1").unwrap_or_default().as_str());
         match readline {
             Ok(line) => {
                 //rl.borrow_mut().add_history_entry(line.as_str());
-- 
2.43.0


From 65a2838c6e3b61656ec0f6b1af49ee41a93f0acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 42/72] fix: unset removes an exported variable from the
 environment

---
 src/builtins.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 2a62d31..e42758c 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -473,7 +473,13 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
     match flags {
         Flags::Variable => {
-            shell::remove_var(command.suffix.as_ref().unwrap().word[pos].as_str());
+            let name = command.suffix.as_ref().unwrap().word[pos].as_str();
+            shell::remove_var(name);
+            // export leaves a copy in both of these
+            shell::get_env_context().borrow_mut().remove_var(name);
+            if !name.is_empty() && !name.contains('=') {
+                env::remove_var(name);
+            }
         },
         Flags::Function => {
             shell::remove_function(command.suffix.as_ref().unwrap().word[pos].as_str());
-- 
2.43.0


From a137d99a596af608246766276ab899f855b6b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 43/72] fix: export does not change a readonly variable

---
 src/builtins.rs | 3 +++
 src/shell.rs    | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/builtins.rs b/src/builtins.rs
index e42758c..67221de 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -376,6 +376,9 @@ pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
         if key.is_empty() {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("export: {}: not a valid name", word)));
         }
+        if shell::is_readonly_var(key) {
+            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("export: {}: readonly variable", key)));
+        }
         shell::add_var(word,0);
         // also where a variable of that name hides the exported one
         shell::add_var_context(word);
diff --git a/src/shell.rs b/src/shell.rs
index 4db4a2f..31b9465 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -643,6 +643,11 @@ pub fn set_readonly_var(name: &str) {
     let mut shell = SHELL.get().borrow_mut();
     shell.set_var_readonly(name);
 }
+pub fn is_readonly_var(name: &str) -> bool {
+    let shell = SHELL.get().borrow();
+    let var = shell.context_manager.get_var(name);
+    var.map_or(false, |var| var.borrow().readonly)
+}
 pub fn remove_var(var: &str) {
     let mut shell = SHELL.get().borrow_mut();
     shell.remove_var(var);
-- 
2.43.0


From 88ff70b5e115a5e4c7ed38fa64ebf9ee97c4847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 44/72] fix: unsetting PS4 does not crash the shell when a job
 is reported

---
 src/jobs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jobs.rs b/src/jobs.rs
index 28ebae3..ff534a8 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -700,14 +700,14 @@ fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
         },
         WaitStatus::Signaled(pid, signal, dump) => {
             let job = match shell::get_job(pid) {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
             if dump {
                 output.push_str(&format!("({}) (core dumped)", signal));
             }
@@ -720,7 +720,7 @@ fn format_status(result: WaitStatus, sig_only: bool) -> Option<String> {
                 Some(job) => job,
                 None => return None,
             };
-            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap(), job.borrow()));
+            output.push_str(&format!("[{}] {}\t\t{} ", job.borrow().job_id,shell::expand_var("PS4").unwrap_or_default(), job.borrow()));
             output.push_str(&format!("({})", signal));
         },
         _ => return None,
-- 
2.43.0


From 300cf502947daf281b08dc91c46ba8a3f013edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 45/72] fix: an unmatched closing bracket does not swallow the
 rest of the input, and quoted brackets do not count

---
 src/completion.rs | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/completion.rs b/src/completion.rs
index 76bd276..3e7b7de 100644
--- a/src/completion.rs
+++ b/src/completion.rs
@@ -7,7 +7,7 @@ use std::borrow::Cow::{self, Borrowed, Owned};
 use rustyline::completion::FilenameCompleter;
 use rustyline::highlight::{Highlighter, MatchingBracketHighlighter};
 use rustyline::hint::HistoryHinter;
-use rustyline::validate::MatchingBracketValidator;
+use rustyline::validate::{ValidationContext, ValidationResult, Validator};
 use rustyline::{Completer, Helper, Hinter, Validator};
 
 use rustyline::{Context,Result};
@@ -21,11 +21,43 @@ pub struct CompletionHelper {
     completer: PathCompleter,
     highlighter: MatchingBracketHighlighter,
     #[rustyline(Validator)]
-    validator: MatchingBracketValidator,
+    validator: BracketValidator,
     #[rustyline(Hinter)]
     hinter: HistoryHinter,
 }
 
+/// Asks for more lines while a bracket is open. Quotes and comments do not count, and
+/// other mistakes are left to the parser.
+pub struct BracketValidator {}
+
+impl Validator for BracketValidator {
+    fn validate(&self, ctx: &mut ValidationContext) -> Result<ValidationResult> {
+        let mut open = Vec::new();
+        let mut word_start = true;
+        let mut chars = ctx.input().chars();
+        while let Some(chr) = chars.next() {
+            match chr {
+                '\'' | '"' => {
+                    chars.by_ref().find(|c| *c == chr);
+                }
+                '#' if word_start => {
+                    chars.by_ref().find(|c| *c == '\n');
+                }
+                '(' | '{' => open.push(chr),
+                ')' if open.pop() != Some('(') => return Ok(ValidationResult::Valid(None)),
+                '}' if open.pop() != Some('{') => return Ok(ValidationResult::Valid(None)),
+                _ => {}
+            }
+            word_start = chr == '#' || chr.is_whitespace() || ";&|(){}<>!\"'`=".contains(chr);
+        }
+        if open.is_empty() {
+            Ok(ValidationResult::Valid(None))
+        } else {
+            Ok(ValidationResult::Incomplete)
+        }
+    }
+}
+
 impl Highlighter for CompletionHelper {
     fn highlight_prompt<'b, 's: 'b, 'p: 'b>(&'s self, prompt: &'p str, default: bool,) -> Cow<'b, str> {
         if default {
@@ -53,7 +85,7 @@ impl Default for CompletionHelper {
         Self {
             completer: PathCompleter::new(),//FilenameCompleter::new(),
             highlighter: MatchingBracketHighlighter::new(),
-            validator: MatchingBracketValidator::new(),
+            validator: BracketValidator {},
             hinter: HistoryHinter {},
         }
     }
-- 
2.43.0


From c35de03d473ef544036cedcd568f4b2420216c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 46/72] fix: errors inside functions and command substitutions
 are reported

---
 src/ast.rs  | 4 +++-
 src/eval.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 1c4223b..590063e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -439,7 +439,9 @@ impl SimpleCommand {
                 nix::unistd::dup2(pip.1, 1).unwrap();
                 nix::unistd::close(pip.1).unwrap();
                 nix::unistd::close(pip.0).unwrap();
-                let _ = crate::eval::eval(&mut ast);
+                if let Err(err) = crate::eval::eval(&mut ast) {
+                    eprintln!("{}", err);
+                }
                 std::process::exit(0);
             }
         }
diff --git a/src/eval.rs b/src/eval.rs
index 3959e93..541623f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -676,7 +676,9 @@ fn eval_compound_command(command: &mut CompoundCommand) {
 
 /// This function evaluates a CompoundList.
 fn eval_compound_list(compound_list: &mut CompoundList) {
-    parse_tree(&mut compound_list.0.0);
+    if let Err(err) = parse_tree(&mut compound_list.0.0) {
+        eprintln!("{}", err);
+    }
 }
 
 /// This function is a wraper for fork().
-- 
2.43.0


From 0aabe29727f85bc0ccef438c8276f82554eef4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 47/72] fix: Ctrl-C and Ctrl-Z that arrive while a command is
 being started are not lost

---
 src/ast.rs  | 10 +++++++++-
 src/eval.rs | 10 +++++++++-
 src/trap.rs | 24 ++++++++++++++++++++----
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 590063e..635aa62 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -411,7 +411,14 @@ impl SimpleCommand {
             }
         };
 
-        let fork_result = match unsafe {nix::unistd::fork()} {
+        let mask = crate::trap::block_keyboard_signals();
+
+        let fork_result = unsafe {nix::unistd::fork()};
+        if !matches!(fork_result, Ok(nix::unistd::ForkResult::Child)) {
+            crate::trap::set_mask(&mask);
+        }
+
+        let fork_result = match fork_result {
             Ok(fork_result) => fork_result,
             Err(err) => {
                 eprintln!("Failed to fork: {}", err);
@@ -436,6 +443,7 @@ impl SimpleCommand {
                 String::from_utf8_lossy(&buf).trim().to_string()
             },
             nix::unistd::ForkResult::Child => {
+                crate::trap::remove_handlers();
                 nix::unistd::dup2(pip.1, 1).unwrap();
                 nix::unistd::close(pip.1).unwrap();
                 nix::unistd::close(pip.0).unwrap();
diff --git a/src/eval.rs b/src/eval.rs
index 541623f..bd0f774 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -684,7 +684,14 @@ fn eval_compound_list(compound_list: &mut CompoundList) {
 /// This function is a wraper for fork().
 /// It also sets up the command's pid in the parent and sets the shell's forked flag in the child.
 fn temp_fork(command: &mut Process) -> Result<Pid,Errno> {
-    match unsafe {fork()}?{
+    let mask = trap::block_keyboard_signals();
+
+    let result = unsafe {fork()};
+    if !matches!(result, Ok(ForkResult::Child)) {
+        trap::set_mask(&mask);
+    }
+
+    match result? {
         ForkResult::Parent { child } => {
             //need to add in logic for setting up jobs
             command.set_pid(child);
@@ -692,6 +699,7 @@ fn temp_fork(command: &mut Process) -> Result<Pid,Errno> {
         },
         ForkResult::Child => {
             shell::set_forked(true);
+            jobs::fork_reset();
 
             return Ok(Pid::from_raw(0));
         }
diff --git a/src/trap.rs b/src/trap.rs
index 5a0eadf..08cf2bf 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -454,14 +454,27 @@ pub fn ignore_sigpipe(ignore: bool) {
     }
 }
 
-/// This function removes all signal handlers
+/// This function blocks SIGINT and SIGTSTP and returns the mask that was in force.
+/// It is called before a fork: what arrives while a child still has the handlers of the shell would be lost.
+pub fn block_keyboard_signals() -> signal::SigSet {
+    let mut sigset = signal::SigSet::empty();
+    sigset.add(signal::SIGINT);
+    sigset.add(signal::SIGTSTP);
+    let mut old_mask = signal::SigSet::empty();
+    signal::sigprocmask(signal::SigmaskHow::SIG_BLOCK, Some(&sigset), Some(&mut old_mask)).unwrap();
+    old_mask
+}
+
+/// This function sets the signal mask
+pub fn set_mask(mask: &signal::SigSet) {
+    signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(mask), None).unwrap();
+}
+
+/// This function removes all signal handlers and then unblocks all signals
 /// however it is not complete
 /// # Todo
 /// make this more inclusive
 pub fn remove_handlers() {
-    let sigset = signal::SigSet::empty();
-    signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(&sigset), None).unwrap();
-
     let sig_handler = signal::SigHandler::SigDfl;
 
     let sig_action = signal::SigAction::new(
@@ -481,5 +494,8 @@ pub fn remove_handlers() {
         // ignored by the Rust runtime
         signal::sigaction(Signal::SIGPIPE, &sig_action).unwrap();
     }
+
+    // only now, so that a pending signal has its default effect
+    sig_clear_mask();
 }
 
-- 
2.43.0


From 9e9f49aabace18c98e702fc5740e6f05aac297c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 48/72] fix: Ctrl-Z during a command substitution does not hang
 the shell

---
 src/ast.rs  |  2 +-
 src/trap.rs | 32 +++++++++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 635aa62..fa12fb1 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -443,7 +443,7 @@ impl SimpleCommand {
                 String::from_utf8_lossy(&buf).trim().to_string()
             },
             nix::unistd::ForkResult::Child => {
-                crate::trap::remove_handlers();
+                crate::trap::substitution_handlers();
                 nix::unistd::dup2(pip.1, 1).unwrap();
                 nix::unistd::close(pip.1).unwrap();
                 nix::unistd::close(pip.0).unwrap();
diff --git a/src/trap.rs b/src/trap.rs
index 08cf2bf..ffafb7c 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -470,6 +470,34 @@ pub fn set_mask(mask: &signal::SigSet) {
     signal::sigprocmask(signal::SigmaskHow::SIG_SETMASK, Some(mask), None).unwrap();
 }
 
+/// This function checks if a signal is ignored, as SIGTSTP is in a command substitution
+fn is_ignored(signal: Signal) -> bool {
+    unsafe {
+        let mut action: libc::sigaction = std::mem::zeroed();
+        libc::sigaction(signal as c_int, std::ptr::null(), &mut action) == 0 && action.sa_sigaction == libc::SIG_IGN
+    }
+}
+
+/// This function ignores SIGTSTP
+fn ignore_sigtstp() {
+    let sig_action = signal::SigAction::new(
+        signal::SigHandler::SigIgn,
+        signal::SaFlags::empty(),
+        signal::SigSet::empty(),
+    );
+
+    unsafe {
+        signal::sigaction(Signal::SIGTSTP, &sig_action).unwrap();
+    }
+}
+
+/// This function sets the signals up in the child that runs a command substitution.
+/// The shell waits for all of its output, so neither it nor its commands can be stopped from the keyboard.
+pub fn substitution_handlers() {
+    ignore_sigtstp();
+    remove_handlers();
+}
+
 /// This function removes all signal handlers and then unblocks all signals
 /// however it is not complete
 /// # Todo
@@ -487,7 +515,9 @@ pub fn remove_handlers() {
         signal::sigaction(Signal::SIGINT, &sig_action).unwrap();
         signal::sigaction(Signal::SIGQUIT, &sig_action).unwrap();
         signal::sigaction(Signal::SIGTERM, &sig_action).unwrap();
-        signal::sigaction(Signal::SIGTSTP, &sig_action).unwrap();
+        if !is_ignored(Signal::SIGTSTP) {
+            signal::sigaction(Signal::SIGTSTP, &sig_action).unwrap();
+        }
         signal::sigaction(Signal::SIGTTIN, &sig_action).unwrap();
         signal::sigaction(Signal::SIGTTOU, &sig_action).unwrap();
         signal::sigaction(Signal::SIGCHLD, &sig_action).unwrap();
-- 
2.43.0


From c7a1e6c010e70d8bf9f19318ed728d5cf903b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 49/72] fix: a command of a subshell whose pid was reused from
 a job of its parent does not lose its status

---
 src/jobs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jobs.rs b/src/jobs.rs
index ff534a8..dff7538 100644
--- a/src/jobs.rs
+++ b/src/jobs.rs
@@ -530,8 +530,13 @@ fn wait_one(block: usize, job: &Option<Rc<RefCell<Job>>>) -> Result<Option<Pid>,
         _ => (),
     }
    
+    // a forked copy of the shell still has the jobs of its parent, and the pid of one of their processes may be reused
+    let owner = shell::get_job(pid);
     let mut state;
     for (_, jb) in shell::get_job_table().borrow_mut().iter_mut() {
+        if owner.as_ref().is_some_and(|owner| !Rc::ptr_eq(owner, jb)) {
+            continue;
+        }
         let result = jb.try_borrow();
         if result.is_err() || result.unwrap().state == JobState::Finished {
             continue;
-- 
2.43.0


From 2566d6bdc3c756cd0055b9fa82b3c69a548c0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 50/72] fix: startup files are found in the home directory, and
 failing commands in them do not end the shell

---
 src/main.rs | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3fc0fd2..41b3fba 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -349,22 +349,34 @@ fn read_profile() -> Result<(), Box<dyn Error>>{
     Ok(())
 }
 
+/// This function opens a file in the user's home directory.
+fn open_in_home(name: &str) -> io::Result<File> {
+    let home = env::var_os("HOME").ok_or(io::ErrorKind::NotFound)?;
+    File::open(std::path::Path::new(&home).join(name))
+}
+
 /// This function is similar to read_profile but it instead reads the user profile file located at ~/.profile.
 /// The file is is opened and evaluated as a script.
 /// This function is always called in main in order to load the user profile.
 /// The return value is Ok(()) if the parser is successful.
 /// The return value is Err(err) if the parser fails.
 fn read_user_profile() -> Result<(), Box<dyn Error>> {
-    let file = File::open("~/.profile");
-    if file.is_err() {
-        return Ok(());
-    }
-    let mut file = file.unwrap();
+    let mut file = match open_in_home(".profile") {
+        Ok(file) => file,
+        Err(err) => {
+            if err.kind() != io::ErrorKind::NotFound {
+                println!("Error reading ~/.profile: {:?}", err);
+            }
+            return Ok(());
+        }
+    };
     let mut user_profile = String::new();
     match file.read_to_string(&mut user_profile) {
         Ok(_) => {},
         Err(err) => {
+            // a part of it is not what the user wrote
             println!("Error reading ~/.profile: {:?}", err);
+            return Ok(());
         }
     }
 
@@ -378,7 +390,9 @@ fn read_user_profile() -> Result<(), Box<dyn Error>> {
             }
         };
 
-    eval::eval(&mut ast).unwrap();
+    if let Err(err) = eval::eval(&mut ast) {
+        println!("{}", err);
+    }
 
     Ok(())
 }
@@ -389,16 +403,22 @@ fn read_user_profile() -> Result<(), Box<dyn Error>> {
 /// The return value is Ok(()) if the parser is successful.
 /// The return value is Err(err) if the parser fails.
 fn read_rc() -> Result<(), Box<dyn Error>> {
-    let file = File::open("~/.rshrc");
-    if file.is_err() {
-        return Ok(());
-    }
-    let mut file = file.unwrap();
+    let mut file = match open_in_home(".rshrc") {
+        Ok(file) => file,
+        Err(err) => {
+            if err.kind() != io::ErrorKind::NotFound {
+                println!("Error reading ~/.rshrc: {:?}", err);
+            }
+            return Ok(());
+        }
+    };
     let mut rc = String::new();
     match file.read_to_string(&mut rc) {
         Ok(_) => {},
         Err(err) => {
+            // a part of it is not what the user wrote
             println!("Error reading ~/.rshrc: {:?}", err);
+            return Ok(());
         }
     }
     
@@ -412,7 +432,9 @@ fn read_rc() -> Result<(), Box<dyn Error>> {
             }
         };
 
-    eval::eval(&mut ast).unwrap();
+    if let Err(err) = eval::eval(&mut ast) {
+        println!("{}", err);
+    }
 
     Ok(())
 }
-- 
2.43.0


From 246a1bca9185f2eb8e10b8c924ec7201ad44f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 51/72] fix: Tab does not end the shell when PATH is unset or a
 directory in it cannot be read

---
 src/completion.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/completion.rs b/src/completion.rs
index 3e7b7de..42da192 100644
--- a/src/completion.rs
+++ b/src/completion.rs
@@ -129,10 +129,7 @@ impl Completer for PathCompleter {
 }
 
 fn command_complete(line: &str) -> Vec<Pair> {
-    let path = {
-        env::var_os("PATH").unwrap().into_string().unwrap()
-        //shell::expand_var("PATH").unwrap().clone()
-    };
+    let path = env::var("PATH").unwrap_or_default();
     let paths = path.split(":");
     let mut entries = Vec::new();
 
@@ -142,8 +139,10 @@ fn command_complete(line: &str) -> Vec<Pair> {
             continue;
         }
         for entry in entry_fs.unwrap() {
-            let entry = entry.unwrap();
-            let name = entry.file_name().into_string().unwrap();
+            // the rest of the directory cannot be read
+            let Ok(entry) = entry else { break };
+            // a name that cannot be typed
+            let Ok(name) = entry.file_name().into_string() else { continue };
 
             if !name.starts_with(line) {
                 continue;
-- 
2.43.0


From ba2bbef8c91281935377e70235fbf86b7185aee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:17 +0000
Subject: [PATCH 52/72] fix: a command with a slash in its name is the file of
 that name

---
 src/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/context.rs b/src/context.rs
index 40d603e..764ae73 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -303,7 +303,11 @@ impl ContextManager {
     }
 
     /// Looks up a command in the PATH variable.
+    /// A command with a slash names its file itself.
     pub fn lookup_command(&self, cmd: &str) -> Option<String> {
+        if cmd.contains('/') {
+            return Some(cmd.to_string());
+        }
         let path = self.context_stack.first().unwrap().borrow().get_var("PATH")?;
         for path in path.borrow().value.split(":") {
             let path = format!("{}/{}", path, cmd);
-- 
2.43.0


From 14e093b7190f2e37422e7de535a03b4fcfcbe4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 53/72] fix: commands are found again when PATH is assigned
 after it was unset

---
 src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.rs b/src/context.rs
index 764ae73..926cf63 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -308,7 +308,7 @@ impl ContextManager {
         if cmd.contains('/') {
             return Some(cmd.to_string());
         }
-        let path = self.context_stack.first().unwrap().borrow().get_var("PATH")?;
+        let path = self.get_var("PATH")?;
         for path in path.borrow().value.split(":") {
             let path = format!("{}/{}", path, cmd);
             let metadata = std::fs::metadata(&path);
-- 
2.43.0


From 50f3660e6f414b0d853df5b691aef85eed9a36f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 54/72] fix: the search for a command passes over files that
 cannot be executed

---
 src/builtins.rs |  4 ++--
 src/context.rs  | 12 +++++++++---
 src/shell.rs    | 11 +++++++++++
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 67221de..200cefb 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -719,8 +719,8 @@ pub fn source(command: &SimpleCommand) -> Result<(),std::io::Error> {
     let mut file = if filename.contains('/') {
         File::open(&filename)
     }// Open the file if it is in in the PATH
-    else if shell::lookup_command(filename.as_str()).is_some() {
-        File::open(shell::lookup_command(filename.as_str()).unwrap())
+    else if let Some(path) = shell::lookup_file(filename.as_str()) {
+        File::open(path)
     }// Open the file in place
     else {
         File::open(&filename)
diff --git a/src/context.rs b/src/context.rs
index 926cf63..ea65e45 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -4,6 +4,7 @@ use std::env;
 use std::rc::Rc;
 use std::cell::RefCell;
 use std::fmt::{Display, Formatter};
+use std::os::unix::fs::PermissionsExt;
 
 use nix::unistd::{getpid, getppid, getuid,Uid};
 
@@ -308,12 +309,17 @@ impl ContextManager {
         if cmd.contains('/') {
             return Some(cmd.to_string());
         }
+        self.lookup_file(cmd, 0o111)
+    }
+
+    /// Looks up a file with one of the given permissions in the PATH variable.
+    pub fn lookup_file(&self, name: &str, mode: u32) -> Option<String> {
         let path = self.get_var("PATH")?;
         for path in path.borrow().value.split(":") {
-            let path = format!("{}/{}", path, cmd);
+            let path = format!("{}/{}", path, name);
             let metadata = std::fs::metadata(&path);
-            if metadata.is_ok() {
-                if metadata.unwrap().is_file() {
+            if let Ok(metadata) = metadata {
+                if metadata.is_file() && metadata.permissions().mode() & mode != 0 {
                     return Some(path);
                 }
             }
diff --git a/src/shell.rs b/src/shell.rs
index 31b9465..5da4f07 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -237,6 +237,11 @@ impl Shell {
         self.context_manager.lookup_command(command)
     }
 
+    /// This function runs the context manager's lookup_file function.
+    pub fn lookup_file(&self, name: &str, mode: u32) -> Option<String> {
+        self.context_manager.lookup_file(name, mode)
+    }
+
     /// This function takes a Context and pushes it onto the Context stack.
     pub fn push_context(&mut self, context: Context) {
         self.context_manager.push_context(context);
@@ -553,6 +558,12 @@ pub fn lookup_command(command: &str) -> Option<String> {
     shell.lookup_command(command)
 }
 
+/// This function looks up a readable file in the PATH and returns the path to it.
+pub fn lookup_file(name: &str) -> Option<String> {
+    let shell = SHELL.get().borrow();
+    shell.lookup_file(name, 0o444)
+}
+
 /// This function checks if the shell is interactive.
 pub fn is_interactive() -> bool {
     let shell = SHELL.get().borrow();
-- 
2.43.0


From b23da088739ddf91b75cfc696719f49841c740c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:23 +0000
Subject: [PATCH 55/72] fix: a sourced file or evaluated text without commands
 has status 0

---
 src/builtins.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/builtins.rs b/src/builtins.rs
index 200cefb..25b3e93 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -420,6 +420,10 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
     };
 
     log!("AST: {:?}", ast);
+    if ast.list.is_none() {
+        // there is nothing that could have failed
+        eval::set_exit_status(0);
+    }
     match eval::eval(&mut ast) {
         Ok(_) => {},
         Err(e) => {
@@ -743,6 +747,10 @@ pub fn source(command: &SimpleCommand) -> Result<(),std::io::Error> {
     };
 
     log!("AST: {:?}", ast);
+    if ast.list.is_none() {
+        // there is nothing that could have failed
+        eval::set_exit_status(0);
+    }
     match eval::eval(&mut ast) {
         Ok(_) => {},
         Err(e) => {
-- 
2.43.0


From b0e4560b2b8668895dc790473aa5a12093cf64ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 56/72] fix: exec takes only words that begin with a dash for
 options, in any number and order

---
 src/builtins.rs | 64 +++++++++++++------------------------------------
 1 file changed, 17 insertions(+), 47 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 25b3e93..df29fcb 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -598,77 +598,47 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
 
     let mut empty_env = false;
     let mut dash = false;
-    let mut rename = false;
+    let mut rename = None;
     let mut pos = 0;
-    
-    if suffix.word[0].contains('-') {
-        if suffix.word[0].contains('c') {
+
+    while pos < suffix.word.len() && suffix.word[pos].starts_with('-') {
+        let option = &suffix.word[pos];
+        pos += 1;
+        if option.contains('c') {
             empty_env = true;
-            pos = 1;
         }
-        if suffix.word[0].contains('l') {
+        if option.contains('l') {
             dash = true;
-            pos = 1;
         }
-        if suffix.word[0].contains('a') {
-            rename = true;
-            pos = 2;
-            if suffix.word.len() <= pos {
+        if option.contains('a') {
+            if suffix.word.len() <= pos + 1 {
                 return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec -a needs an argument"));
             }
-        }
-    }
-    if suffix.word.len() > pos && suffix.word[pos].contains('-') {
-        if suffix.word[pos].contains('c') {
-            empty_env = true;
-            pos += 1;
-        }
-        if suffix.word[pos].contains('l') {
-            dash = true;
+            rename = Some(&suffix.word[pos]);
             pos += 1;
         }
-        if suffix.word[pos].contains('a') {
-            rename = true;
-            pos += 2;
-            if suffix.word.len() <= pos {
-                return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec -a needs an argument"));
-            }
-        }
     }
 
     if suffix.word.len() <= pos {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "exec needs an argument"));
     }
 
-    log!("empty_env: {}, dash: {}, rename: {}, pos: {}", empty_env, dash, rename, pos);
+    log!("empty_env: {}, dash: {}, rename: {:?}, pos: {}", empty_env, dash, rename, pos);
 
     let mut args = Vec::new();
     let mut cmd = String::new();
     for i in pos..suffix.word.len() {
         log!("i: {}, pos: {}", i, pos);
         log!("word: {}", suffix.word[i]);
-        if i == pos && dash && rename {
-            let temp = "-".to_string() + suffix.word[pos - 1].as_str();
+        let word = if i == pos { rename.unwrap_or(&suffix.word[i]) } else { &suffix.word[i] };
+        if i == pos && dash {
+            let temp = "-".to_string() + word.as_str();
             args.push(CString::new(temp.as_str()).unwrap());
-            cmd += suffix.word[pos - 1].as_str();
-            cmd += " ";
-            continue;
         }
-        else if i == pos && dash {
-            let temp = "-".to_string() + suffix.word[i].as_str();
-            args.push(CString::new(temp.as_str()).unwrap());
-            cmd += suffix.word[i].as_str();
-            cmd += " ";
-            continue;
-        }
-        else if rename && i == pos {
-            cmd += suffix.word[pos - 1].as_str();
-            args.push(CString::new(suffix.word[pos - 1].as_str()).unwrap());
-            cmd += " ";
-            continue;
+        else {
+            args.push(CString::new(word.as_str()).unwrap());
         }
-        args.push(CString::new(suffix.word[i].as_str()).unwrap());
-        cmd += suffix.word[i].as_str();
+        cmd += word.as_str();
         cmd += " ";
     }
     log!("args: {:?}", args);
-- 
2.43.0


From 2392732b1039b8f1a112b8f1a59a7f2b0da5ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 57/72] fix: a command started in the background leaves status
 0

---
 src/eval.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eval.rs b/src/eval.rs
index bd0f774..e0c7fc8 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -330,6 +330,7 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
         }
         else if background && proc_count > 0  && job.borrow().processes.len() > 0 {
             println!("[{}] ({}) {}", job.borrow().job_id, job.borrow().processes[0].pid, job.borrow());
+            set_exit_status(0);
         }
         else if proc_count == 0 {
             let id = {
-- 
2.43.0


From d0974f6f8b2bacdac488688a9058eb2a814bf4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:46 +0000
Subject: [PATCH 58/72] fix: eval evaluates all its words, not only the first

---
 src/builtins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index df29fcb..814b999 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -409,7 +409,7 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
     }
 
 
-    let string = command.suffix.as_ref().unwrap().word[0].as_str().to_string() + "\n";
+    let string = command.suffix.as_ref().unwrap().word.join(" ") + "\n";
     
     let mut lexer = Lexer::new(string.as_str());
     let mut ast = match grammar::CompleteCommandParser::new().parse(string.as_str(),lexer) {
-- 
2.43.0


From 1019515d57300d6786a7a758d15c0592b1d1a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:46 +0000
Subject: [PATCH 59/72] fix: the arguments of an alias come before those of the
 call

---
 src/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index fa12fb1..55ab0b2 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -264,7 +264,8 @@ impl SimpleCommand {
                 self.name = name;
                 match &mut self.suffix {
                     Some(suffix) => {
-                        suffix.word.append(&mut args);
+                        args.append(&mut suffix.word);
+                        suffix.word = args;
                     }
                     None => {
                         self.suffix = Some(Suffix {
-- 
2.43.0


From fe7a9ebe88829ea1e7a198a764498a82d4755c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:46 +0000
Subject: [PATCH 60/72] fix: unquote and expand the file names of redirections

---
 src/ast.rs  | 14 ++++++++++++++
 src/eval.rs |  1 +
 2 files changed, 15 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index 55ab0b2..2ebc792 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -663,6 +663,20 @@ impl SimpleCommand {
 
     }
 
+    /// The name of the file of a redirection may be quoted or be in a variable, too.
+    pub fn expand_redirects(&mut self) {
+        let prefix = self.prefix.iter_mut().flat_map(|prefix| prefix.io_redirect.iter_mut());
+        let suffix = self.suffix.iter_mut().flat_map(|suffix| suffix.io_redirect.iter_mut());
+        for file in prefix.chain(suffix).filter_map(|redirect| redirect.io_file.as_mut()) {
+            if file.filename.starts_with('"') || file.filename.starts_with('\'') {
+                Self::cut_quotes(&mut file.filename);
+            }
+            else if let Some(value) = file.filename.strip_prefix('$').and_then(shell::expand_var) {
+                file.filename = value;
+            }
+        }
+    }
+
     fn eval_double_quotes(word: &str) -> Vec<String> {
         if !word.contains("$(") && !word.contains("`") {
             let mut new_word = word.to_string();
diff --git a/src/eval.rs b/src/eval.rs
index e0c7fc8..2f78543 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -405,6 +405,7 @@ fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Pro
     simple_command.alias_lookup();
     simple_command.expand_vars();
     simple_command.eval();
+    simple_command.expand_redirects();
 
     if simple_command.has_nul() {
         set_exit_status(1);
-- 
2.43.0


From 6f5c9302c717727d089ff4f7fea99cd940c60729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:17 +0000
Subject: [PATCH 61/72] fix: only words that begin with a dash are options of
 alias, unalias, export, unset and readonly

---
 src/builtins.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 814b999..4083e2c 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -229,7 +229,7 @@ pub fn alias(command: &SimpleCommand) -> Result<(), std::io::Error> {
         shell::display_aliases();
         return Ok(());
     }
-    if command.suffix.as_ref().unwrap().word[0].contains("-p") {
+    if command.suffix.as_ref().unwrap().word[0].starts_with("-p") {
         shell::display_aliases();
         return Ok(());
     }
@@ -255,7 +255,7 @@ pub fn unalias(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if command.suffix.as_ref().unwrap().word.len() > 1 {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "unalias only takes one argument"));
     }
-    if command.suffix.as_ref().unwrap().word[0].contains("-a") {
+    if command.suffix.as_ref().unwrap().word[0].starts_with("-a") {
         shell::clear_aliases();
         return Ok(());
     }
@@ -307,9 +307,9 @@ fn create_context_from_file(file: &str) -> Result<Rc<RefCell<Context>>, std::io:
 /// .        If the right side is a file, it will evaluate the as a new context and export it.
 /// .        If the right side is 'self', it will export the current context to the environment using the namespace defined by the left side.
 pub fn export(command: &SimpleCommand) -> Result<(), std::io::Error> {
-    if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0].contains("-p") {
-        env::vars().for_each(|(key, value)| {
-            println!("{}={}", key, value);
+    if (command.suffix.is_none() || command.suffix.as_ref().unwrap().word.len() == 0) || command.suffix.as_ref().unwrap().word[0].starts_with("-p") {
+        env::vars_os().for_each(|(key, value)| {
+            println!("{}={}", key.to_string_lossy(), value.to_string_lossy());
         });
         return Ok(());
     }
@@ -456,7 +456,7 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
 
     let mut flags = Flags::Variable;
     let mut pos = 0;
-    if command.suffix.as_ref().unwrap().word[0].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word[0].as_str().starts_with('-') {
 	if command.suffix.as_ref().unwrap().word[0].as_str().contains('f') {
 	    flags = Flags::Function;
 	    pos = 1;
@@ -509,7 +509,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
     let mut flags = Flags::Variable;
     let mut pos = 0;
     let mut print = false;
-    if command.suffix.as_ref().unwrap().word[0].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word[0].as_str().starts_with('-') {
         if command.suffix.as_ref().unwrap().word[0].as_str().contains('f') {
             flags = Flags::Function;
             pos = 1;
@@ -530,7 +530,7 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
             return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly: invalid option"));
         }
     }
-    if command.suffix.as_ref().unwrap().word.len() > pos && command.suffix.as_ref().unwrap().word[pos].as_str().contains('-') {
+    if command.suffix.as_ref().unwrap().word.len() > pos && command.suffix.as_ref().unwrap().word[pos].as_str().starts_with('-') {
         if command.suffix.as_ref().unwrap().word[pos].as_str().contains('p') {
             print = true;
             pos += 1;
-- 
2.43.0


From 6bdc951ef593eba20369ade88c264299199b1d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:17 +0000
Subject: [PATCH 62/72] fix: an environment variable that is no text does not
 end the shell

---
 src/builtins.rs | 3 ++-
 src/context.rs  | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 4083e2c..ea56d2d 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -10,6 +10,7 @@ use nix::unistd::Pid;
 use nix::sys::signal::kill;
 use nix::sys::signal::Signal;
 use std::ffi::CString;
+use std::os::unix::ffi::OsStrExt;
 use crate::jobs;
 use crate::trap;
 use crate::eval;
@@ -650,7 +651,7 @@ pub fn exec_cmd(command: &SimpleCommand) -> Result<(),std::io::Error> {
         Vec::new()
     }
     else {
-        env::vars().map(|(k, v)| CString::new(k + "=" + &v).unwrap()).collect()
+        env::vars_os().map(|(k, v)| CString::new([k.as_bytes(), b"=", v.as_bytes()].concat()).unwrap()).collect()
     };
 
     
diff --git a/src/context.rs b/src/context.rs
index ea65e45..1280cf2 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -377,7 +377,9 @@ impl ContextManager {
     /// Converts the environment variables into a HashMap of variables.
     fn convert_env() -> HashMap<String, Rc<RefCell<Var>>> {
         let mut vars = HashMap::new();
-        for (key, value) in std::env::vars() {
+        for (key, value) in std::env::vars_os() {
+            // one that is no text is only passed on to the commands
+            let (Ok(key), Ok(value)) = (key.into_string(), value.into_string()) else { continue };
             vars.insert(key.clone(), Rc::new(RefCell::new(Var::new(&key, &value))));
         }
         vars
-- 
2.43.0


From 8cccad8ccbabb60980b321a8f6541bc7b8927a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:17 +0000
Subject: [PATCH 63/72] fix: an empty argument of a script does not end the
 shell

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 41b3fba..048bedf 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -106,7 +106,7 @@ fn parse_args(args: Vec<String>) -> Option<String> {
 
     for arg in args.iter() {
             println!("arg: {}", arg);
-        if arg.chars().nth(0).unwrap() == '-' && !non_interactive_mode {
+        if arg.starts_with('-') && !non_interactive_mode {
             read_from_args = parse_dash_arg(&arg);
             if read_from_args {
                 break;
-- 
2.43.0


From 2a3ca851782f733ebfd37bd9ee7c9c4fb8c5cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:17 +0000
Subject: [PATCH 64/72] fix: an alias may stand for a builtin or have the name
 of one

---
 src/eval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 2f78543..375546f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -383,6 +383,9 @@ fn eval_function_definition(function_definition: &mut FunctionDefinition) -> Res
 /// made the Process.
 fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Process, SimpleCommand)>,String> {
    
+    // first, since it may give the name of a builtin or be called like one
+    simple_command.alias_lookup();
+
     if check_if_builtin(&simple_command.name) {
         return eval_builtin(simple_command);
     }
@@ -402,7 +405,6 @@ fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Pro
     simple_command.remove_single_quotes();
     log!("remove_single_quotes: {:?}", simple_command);*/
 
-    simple_command.alias_lookup();
     simple_command.expand_vars();
     simple_command.eval();
     simple_command.expand_redirects();
@@ -536,7 +538,6 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
     log!("remove_single_quotes: {:?}", command);*/
 
 
-    command.alias_lookup();
     command.expand_vars();
     command.eval();
 
-- 
2.43.0


From b65fddaf403647c3787e11204193d6f09a8b6502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:17 +0000
Subject: [PATCH 65/72] fix: a line that is no text does not end the shell

---
 src/main.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 048bedf..bfda135 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -22,6 +22,7 @@ use lexer::Lexer;
 use std::error::Error;
 
 use std::io;
+use std::io::IsTerminal;
 use std::env;
 use std::fs::File;
 use std::io::BufReader;
@@ -203,6 +204,11 @@ fn interactive_loop() {
             Err(ReadlineError::Eof) => {
                 break;
             },
+            // a line that is no text; without a terminal it has been read as a whole
+            Err(ReadlineError::Io(err)) if err.kind() == io::ErrorKind::InvalidData && !io::stdin().is_terminal() => {
+                println!("Error: {}", err);
+                continue;
+            },
             /*Err(ReadlineError::Errno(error)) => {
                 continue;
             },*/
@@ -269,6 +275,11 @@ fn script_loop(script_name: &str) {
         match buf_reader.read_line(&mut input) {
             Ok(0) => break,
             Ok(_) => {},
+            // the line is no text, but has been read as a whole
+            Err(err) if err.kind() == io::ErrorKind::InvalidData => {
+                eprintln!("{}: {}", script_name, err);
+                continue;
+            },
             Err(err) => {
                 eprintln!("{}: {}", script_name, err);
                 std::process::exit(1);
-- 
2.43.0


From 907887e09c72f451d9e49eece5439afbaf9808de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:17 +0000
Subject: [PATCH 66/72] fix: the shell starts also where its working directory
 cannot be told

---
 src/context.rs | 4 +++-
 src/shell.rs   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1280cf2..c7c0382 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -414,7 +414,9 @@ impl Default for ContextManager {
             vars.insert("PATH".to_owned(), Rc::new(RefCell::new(Var::new("PATH", "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"))));
         }
         if env::var("PWD").is_err() {//TODO: Change this to use a nix function that will be more reliable
-            vars.insert("PWD".to_owned(), Rc::new(RefCell::new(Var::new("PWD", nix::unistd::getcwd().unwrap().to_str().unwrap()))));
+            if let Ok(pwd) = nix::unistd::getcwd() {
+                vars.insert("PWD".to_owned(), Rc::new(RefCell::new(Var::new("PWD", &pwd.to_string_lossy()))));
+            }
         }
         vars.insert("PS1".to_owned(), Rc::new(RefCell::new(Var::new("PS1", ps1))));
         vars.insert("PS2".to_owned(), Rc::new(RefCell::new(Var::new("PS2", "> "))));
diff --git a/src/shell.rs b/src/shell.rs
index 5da4f07..c562ea1 100644
--- a/src/shell.rs
+++ b/src/shell.rs
@@ -124,7 +124,7 @@ impl Shell {
             interactive: true,
             //var_data: VarData::new(),
             curr_directory: String::new(),
-            physical_directory: getcwd().unwrap(),
+            physical_directory: getcwd().unwrap_or_default(),
             jobctl: false,
             job_warning: 0,
             background_pid: Pid::from_raw(-1),
-- 
2.43.0


From a4794e672a3ef8f4e0849d3f24bc49e38bcfc7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:50 +0000
Subject: [PATCH 67/72] fix: unset and readonly leave a readonly variable as it
 is

---
 src/builtins.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index ea56d2d..94d4793 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -482,6 +482,9 @@ pub fn unset(command: &SimpleCommand) -> Result<(), std::io::Error> {
     match flags {
         Flags::Variable => {
             let name = command.suffix.as_ref().unwrap().word[pos].as_str();
+            if shell::is_readonly_var(name) {
+                return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("{}: readonly variable", name)));
+            }
             shell::remove_var(name);
             // export leaves a copy in both of these
             shell::get_env_context().borrow_mut().remove_var(name);
@@ -577,7 +580,10 @@ pub fn readonly(command: &SimpleCommand) -> Result<(), std::io::Error> {
     if command.suffix.as_ref().unwrap().word.len() == pos {
         return Err(std::io::Error::new(std::io::ErrorKind::Other, "readonly needs an argument"));
     }
-    if command.suffix.as_ref().unwrap().word[pos].as_str().contains('=') {
+    if let Some((name, _)) = command.suffix.as_ref().unwrap().word[pos].split_once('=') {
+        if shell::is_readonly_var(name) {
+            return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("{}: readonly variable", name)));
+        }
         shell::add_readonly_var(command.suffix.as_ref().unwrap().word[pos].as_str());
         return Ok(());
     }
-- 
2.43.0


From 4de332b7c85bd831672adb797936e74cee6dc585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:50 +0000
Subject: [PATCH 68/72] fix: output that cannot be written does not end the
 shell

---
 src/builtins.rs |  8 +++-----
 src/main.rs     |  3 +++
 src/output.rs   | 28 ++++++++++++++++++++++++++++
 src/trap.rs     |  8 ++------
 4 files changed, 36 insertions(+), 11 deletions(-)
 create mode 100644 src/output.rs

diff --git a/src/builtins.rs b/src/builtins.rs
index 94d4793..d6a009e 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -12,6 +12,7 @@ use nix::sys::signal::Signal;
 use std::ffi::CString;
 use std::os::unix::ffi::OsStrExt;
 use crate::jobs;
+use crate::output;
 use crate::trap;
 use crate::eval;
 use crate::log;
@@ -106,9 +107,7 @@ pub fn return_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It prints out all of the jobs that are currently running.
 pub fn jobs() -> Result<(), std::io::Error> {
     trap::reap_children();
-    print!("{}", shell::display_jobs());
-    io::stdout().flush().unwrap();
-    Ok(())
+    output::write(1, &shell::display_jobs())
 }
 
 /// This is the 'fg' and 'bg' commands of the shell.
@@ -440,8 +439,7 @@ pub fn eval_cmd(command: &SimpleCommand) -> Result<(), std::io::Error> {
 /// It prints out the current working directory.
 pub fn pwd() -> Result<(), std::io::Error> {
     let path = env::current_dir()?;
-    println!("{}", path.display());
-    Ok(())
+    output::write(1, &format!("{}\n", path.display()))
 }
 
 enum Flags {
diff --git a/src/main.rs b/src/main.rs
index bfda135..191b5b9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,6 @@
+// the tests keep the macros of the standard library, whose output is captured
+#[cfg_attr(not(test), macro_use)]
+mod output;
 mod shell;
 mod completion;
 mod context;
diff --git a/src/output.rs b/src/output.rs
new file mode 100644
index 0000000..3db0cb5
--- /dev/null
+++ b/src/output.rs
@@ -0,0 +1,28 @@
+//! Output of the shell itself. Output that cannot be written is lost, it is no reason for the shell to end
+//! as it is for the macros of the standard library.
+
+use std::fs::File;
+use std::io::{self, Write};
+use std::mem::ManuallyDrop;
+use std::os::unix::io::{FromRawFd, RawFd};
+
+/// This function writes a text to a file descriptor. Nothing is kept in a buffer.
+pub fn write(fd: RawFd, text: &str) -> io::Result<()> {
+    let mut file = ManuallyDrop::new(unsafe { File::from_raw_fd(fd) });
+    file.write_all(text.as_bytes())
+}
+
+#[cfg(not(test))]
+macro_rules! print {
+    ($($arg:tt)*) => {{ let _ = crate::output::write(1, &format!($($arg)*)); }};
+}
+
+#[cfg(not(test))]
+macro_rules! println {
+    ($($arg:tt)*) => {{ let _ = crate::output::write(1, &(format!($($arg)*) + "\n")); }};
+}
+
+#[cfg(not(test))]
+macro_rules! eprintln {
+    ($($arg:tt)*) => {{ let _ = crate::output::write(2, &(format!($($arg)*) + "\n")); }};
+}
diff --git a/src/trap.rs b/src/trap.rs
index ffafb7c..88abd08 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -268,14 +268,10 @@ fn sig_chld() -> bool {
     if job.as_ref().unwrap().borrow().background {
         match status {
             WaitStatus::Signaled(_, _, _) => {
-                let msg = format!("Job [{}] ({}) terminated by signal",job.as_ref().unwrap().borrow().job_id, pid);
-                std::io::stdout().write_all(&msg.as_bytes()).unwrap();
-                std::io::stdout().flush().unwrap();
+                print!("Job [{}] ({}) terminated by signal",job.as_ref().unwrap().borrow().job_id, pid);
             },
             WaitStatus::Stopped(_, _) => {
-                let msg = format!("Job [{}] ({}) stopped by signal",job.as_ref().unwrap().borrow().job_id, pid);
-                std::io::stdout().write_all(&msg.as_bytes()).unwrap();
-                std::io::stdout().flush().unwrap();
+                print!("Job [{}] ({}) stopped by signal",job.as_ref().unwrap().borrow().job_id, pid);
             },
             _ => {},
         }
-- 
2.43.0


From 0dac9ad2643757b2a2f1229b768ecec817519ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:43 +0000
Subject: [PATCH 69/72] fix: blocked signals and an ignored SIGCHLD are not
 taken over from the starting program

---
 src/main.rs |  2 ++
 src/trap.rs | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 191b5b9..2180d70 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -38,6 +38,8 @@ use rustyline::error::ReadlineError;
 
 fn main() {
 
+    trap::reset_inherited();
+
     let args: Vec<String> = env::args().collect();
 
     let input = parse_args(args);
diff --git a/src/trap.rs b/src/trap.rs
index 88abd08..acf9e1b 100644
--- a/src/trap.rs
+++ b/src/trap.rs
@@ -450,6 +450,22 @@ pub fn ignore_sigpipe(ignore: bool) {
     }
 }
 
+/// This function undoes what the program that started the shell may have left:
+/// signals that are blocked, or that are ignored although children can only be waited for without that
+pub fn reset_inherited() {
+    set_mask(&signal::SigSet::empty());
+
+    let default = signal::SigAction::new(
+        signal::SigHandler::SigDfl,
+        signal::SaFlags::empty(),
+        signal::SigSet::empty(),
+    );
+
+    unsafe {
+        signal::sigaction(Signal::SIGCHLD, &default).unwrap();
+    }
+}
+
 /// This function blocks SIGINT and SIGTSTP and returns the mask that was in force.
 /// It is called before a fork: what arrives while a child still has the handlers of the shell would be lost.
 pub fn block_keyboard_signals() -> signal::SigSet {
-- 
2.43.0


From 0430b7a8564ce240cae8b028b8fef96cd19eeca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:13 +0000
Subject: [PATCH 70/72] fix: functions in a pipeline or in the background can
 use the job table

---
 src/eval.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 375546f..9be302c 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -256,6 +256,10 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
                 //println!("executing: {:?}", process.argv);
                 
                 if shell::is_function(&commands[count].name) {
+                    // what runs here may use the job table, and its own process isn't one of its jobs
+                    drop(job);
+                    shell::delete_job(job_id);
+
                     let result = eval_function(&mut commands[count]);
                     
                     match result {
-- 
2.43.0


From d7a4f25684aa8b7aba7f8ab743022fb8e0a76a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:15 +0000
Subject: [PATCH 71/72] fix: builtins run in pipelines and in the background

---
 src/eval.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 9be302c..cc96717 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -146,6 +146,7 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
 
     let background = pipeline.background;
     let mut pipeline: &mut PipeSequence = &mut pipeline.pipe_sequence;
+    let in_child = background || pipeline.iter().count() > 1;
     
     let mut processes = Vec::new();
     let mut commands = Vec::new();
@@ -153,7 +154,7 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
     //block interrupts
     trap::interrupts_off();
     for command in pipeline.iter_mut() {
-        let process = eval_command(command)?;
+        let process = eval_command(command, in_child)?;
         if process.is_none() {
             break;   
         }
@@ -255,11 +256,16 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
                 
                 //println!("executing: {:?}", process.argv);
                 
-                if shell::is_function(&commands[count].name) {
+                if check_if_builtin(&commands[count].name) || shell::is_function(&commands[count].name) {
                     // what runs here may use the job table, and its own process isn't one of its jobs
                     drop(job);
                     shell::delete_job(job_id);
 
+                    if check_if_builtin(&commands[count].name) {
+                        run_builtin(&mut commands[count]);
+                        std::process::exit(get_exit_code());
+                    }
+
                     let result = eval_function(&mut commands[count]);
                     
                     match result {
@@ -357,11 +363,12 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
 /// This command evaluates a Command and returns a None if the command is a function definition or a shell builtin.
 /// if the command is not one of the above two then it returns a tuple with a Process and the SimpleCommand that
 /// made the Process.
-fn eval_command(command: &mut Command) -> Result<Option<(Process,SimpleCommand)>,String> {
+/// A builtin that runs in a child, like every other stage of a pipeline, is a process, too.
+fn eval_command(command: &mut Command, in_child: bool) -> Result<Option<(Process,SimpleCommand)>,String> {
 
     match command {
         Command::SimpleCommand(simple_command) => {
-            return eval_simple_command(simple_command);
+            return eval_simple_command(simple_command, in_child);
         },
         Command::FunctionDefinition(function_definition) => {
             return eval_function_definition(function_definition);
@@ -385,12 +392,12 @@ fn eval_function_definition(function_definition: &mut FunctionDefinition) -> Res
 
 /// This function evaluates a simple command and returns a tuple with a Process and the SimpleCommand that
 /// made the Process.
-fn eval_simple_command(simple_command: &mut SimpleCommand) -> Result<Option<(Process, SimpleCommand)>,String> {
+fn eval_simple_command(simple_command: &mut SimpleCommand, in_child: bool) -> Result<Option<(Process, SimpleCommand)>,String> {
    
     // first, since it may give the name of a builtin or be called like one
     simple_command.alias_lookup();
 
-    if check_if_builtin(&simple_command.name) {
+    if check_if_builtin(&simple_command.name) && !in_child {
         return eval_builtin(simple_command);
     }
 
@@ -550,6 +557,13 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
         return Err(format!("{}: argument contains a NUL character", command.name));
     }
 
+    run_builtin(command);
+    return Ok(None);
+}
+
+/// This function runs a shell builtin whose words have been evaluated.
+fn run_builtin(command: &mut SimpleCommand) {
+
     // these leave the status of what they ran or were given
     if !matches!(command.name.as_str(), "exit" | "return" | "eval" | "." | "source") {
         set_exit_status(0);
@@ -561,8 +575,6 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
         println!("{}", result.err().unwrap());
         set_exit_status(1);
     }
-    return Ok(None);
-    
 }
 
 fn call_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCommand)>,std::io::Error> {
-- 
2.43.0


From daf38d7b830691922b07c4f2420097c10c8c7723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:18 +0000
Subject: [PATCH 72/72] fix: redirections of builtins and functions are carried
 out

---
 src/eval.rs | 85 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 82 insertions(+), 3 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index cc96717..776b79f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -7,7 +7,7 @@ use crate::context::ContextUtils;
 use crate::shell;
 use crate::trap;
 use nix::errno::Errno;
-use nix::fcntl::{fcntl, FcntlArg, FdFlag};
+use nix::fcntl::{fcntl, FcntlArg, FdFlag, OFlag};
 use nix::sys::wait::WaitStatus;
 use std::fs::{File, OpenOptions};
 use std::os::unix::io::AsRawFd;
@@ -17,7 +17,7 @@ use std::sync::atomic::{AtomicI32, Ordering};
 use crate::log;
 
 use std::os::unix::io::RawFd;
-use nix::unistd::{close, dup2, pipe,execv, fork, getpid, setpgid, ForkResult, Pid};
+use nix::unistd::{close, dup2, dup3, pipe,execv, fork, getpid, setpgid, ForkResult, Pid};
 
 /// Stores the exit status of the last command
 pub static mut EXIT_STATUS: AtomicI32 = AtomicI32::new(0);
@@ -177,6 +177,13 @@ fn eval_pipeline_blocked(pipeline: &mut Pipeline) -> Result<i32,String> {
             if shell::is_function(&command.name) {
                 remove_index.push(index);
             
+                let redirected = Redirected::new(command);
+                if let Err(error) = &redirected {
+                    eprintln!("{}", error);
+                    set_exit_status(1);
+                    continue;
+                }
+
                 let result = eval_function(command);
                 
                 match result {
@@ -459,7 +466,7 @@ fn eval_assignment(assignment: &Vec<String>) {
 }
 
 /// This function evaluates an IoRedirect in a SimpleCommand's Prefix or Suffix.
-fn eval_redirect(redirect: &Vec<IoRedirect>) -> Result<(),String> {
+fn eval_redirect(redirect: &[IoRedirect]) -> Result<(),String> {
     for redir in redirect.iter() {
         if redir.io_file.is_some() {
             let io_file = redir.io_file.as_ref().unwrap();
@@ -499,6 +506,70 @@ fn eval_redirect(redirect: &Vec<IoRedirect>) -> Result<(),String> {
     Ok(())
 }
 
+/// These are the file descriptors that were replaced by the redirections of a builtin or a function which runs
+/// in the shell itself. They get their places back when it is over.
+struct Redirected {
+    saved: Vec<(RawFd, Option<(RawFd, OFlag)>)>,
+}
+
+impl Redirected {
+    /// This redirects the shell as the command says.
+    fn new(command: &SimpleCommand) -> Result<Redirected,String> {
+        let mut redirected = Redirected { saved: Vec::new() };
+        let (prefix, suffix) = command.prefix_suffix();
+        let lists = [prefix.map(|prefix| &prefix.io_redirect), suffix.map(|suffix| &suffix.io_redirect)];
+        for redir in lists.into_iter().flatten().flatten() {
+            redirected.save(redir)?;
+            eval_redirect(std::slice::from_ref(redir))?;
+        }
+        Ok(redirected)
+    }
+
+    /// This keeps a copy of the file descriptor that a redirection is about to replace.
+    fn save(&mut self, redir: &IoRedirect) -> Result<(),String> {
+        let io_file = match &redir.io_file {
+            Some(io_file) => io_file,
+            None => return Ok(()),
+        };
+        let fd = match &io_file.redirect_type {
+            RedirectType::Input => redir.io_number.unwrap_or(0),
+            _ => redir.io_number.unwrap_or(1),
+        };
+        let flags = match fcntl(fd, FcntlArg::F_GETFD) {
+            Ok(flags) => flags,
+            Err(Errno::EBADF) => {
+                self.saved.push((fd, None));
+                return Ok(());
+            },
+            Err(error) => return Err(format!("{}: {}", io_file.filename, error)),
+        };
+        let cloexec = if flags & FdFlag::FD_CLOEXEC.bits() != 0 { OFlag::O_CLOEXEC } else { OFlag::empty() };
+        let copy = fcntl(fd, FcntlArg::F_DUPFD_CLOEXEC(10)).map_err(|error| format!("{}: {}", io_file.filename, error))?;
+        self.saved.push((fd, Some((copy, cloexec))));
+        Ok(())
+    }
+}
+
+impl Drop for Redirected {
+    fn drop(&mut self) {
+        for (fd, saved) in self.saved.drain(..).rev() {
+            match saved {
+                Some((copy, cloexec)) => {
+                    if cloexec.is_empty() {
+                        let _ = dup2(copy, fd);
+                    } else {
+                        let _ = dup3(copy, fd, cloexec);
+                    }
+                    let _ = close(copy);
+                },
+                None => {
+                    let _ = close(fd);
+                },
+            }
+        }
+    }
+}
+
 /// This function puts an open file in the place of a file descriptor.
 fn redirect_to(file: File, fd: RawFd) -> Result<(),Errno> {
     if file.as_raw_fd() == fd {
@@ -551,12 +622,20 @@ fn eval_builtin(command: &mut SimpleCommand) -> Result<Option<(Process,SimpleCom
 
     command.expand_vars();
     command.eval();
+    command.expand_redirects();
 
     if command.has_nul() {
         set_exit_status(1);
         return Err(format!("{}: argument contains a NUL character", command.name));
     }
 
+    let redirected = Redirected::new(command);
+    if let Err(error) = &redirected {
+        eprintln!("{}", error);
+        set_exit_status(1);
+        return Ok(None);
+    }
+
     run_builtin(command);
     return Ok(None);
 }
-- 
2.43.0

