//! In-memory file system, pipes and open file descriptions of the simulated machine.
use std::collections::{BTreeMap, VecDeque};

pub type Ino = usize;

#[derive(Clone, Debug)]
pub enum Node {
    File(Vec<u8>),
    Dir(BTreeMap<String, Ino>),
    Link(String),
    Null,
    Tty,
    NoTty, // /dev/tty of a process without controlling terminal
}
#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub parent: Ino,
    pub nlink: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Obj {
    File(Ino),
    Dir(Ino),
    PipeR(usize),
    PipeW(usize),
    SockEnd(usize, usize), // reads from pipe .0, writes to pipe .1
    Null,
    Input,   // standard input fed by the typist (not a terminal)
    Console(u8), // 1 = stdout, 2 = stderr of the shell (not a terminal)
    Tty,
}
#[derive(Clone, Debug)]
pub struct Ofd {
    pub obj: Obj,
    pub off: u64,
    pub flags: i32,
    pub refs: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    pub readers: usize,
    pub writers: usize,
    pub total: u64,
    pub maker: i32,
}

pub struct Fs {
    pub inodes: Vec<Inode>,
    pub ofds: Vec<Ofd>,
    pub pipes: Vec<Pipe>,
    pub pipe_cap: usize,
    pub free_bytes: i64,
    pub has_tty: bool,
}

pub const ROOT: Ino = 0;

impl Fs {
    pub fn new(pipe_cap: usize) -> Fs {
        let mut f = Fs {
            inodes: vec![Inode { node: Node::Dir(BTreeMap::new()), mode: 0o40755, parent: 0, nlink: 2 }],
            ofds: vec![],
            pipes: vec![],
            pipe_cap,
            free_bytes: i64::MAX,
            has_tty: false,
        };
        for d in ["bin", "w", "tmp", "dev", "root", "w/d1", "w/d2", "w/d1/sub"] {
            f.mkdir_p(d);
        }
        f
    }
    pub fn add(&mut self, parent: Ino, name: &str, node: Node, mode: u32) -> Ino {
        let i = self.inodes.len();
        self.inodes.push(Inode { node, mode, parent, nlink: 1 });
        if let Node::Dir(m) = &mut self.inodes[parent].node {
            m.insert(name.to_string(), i);
        }
        i
    }
    pub fn mkdir_p(&mut self, path: &str) -> Ino {
        let mut cur = ROOT;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            cur = match self.child(cur, c) {
                Some(i) => i,
                None => self.add(cur, c, Node::Dir(BTreeMap::new()), 0o40755),
            };
        }
        cur
    }
    pub fn put_file(&mut self, path: &str, data: Vec<u8>, mode: u32) -> Ino {
        let (d, n) = match path.rfind('/') {
            Some(i) => (&path[..i], &path[i + 1..]),
            None => ("", path),
        };
        let p = self.mkdir_p(d);
        if let Some(i) = self.child(p, n) {
            self.inodes[i].node = Node::File(data);
            self.inodes[i].mode = 0o100000 | mode;
            return i;
        }
        self.add(p, n, Node::File(data), 0o100000 | mode)
    }
    pub fn child(&self, d: Ino, name: &str) -> Option<Ino> {
        match &self.inodes[d].node {
            Node::Dir(m) => match name {
                "." => Some(d),
                ".." => Some(self.inodes[d].parent),
                _ => m.get(name).copied().or_else(|| {
                    // every [a-z][0-9]+ is an executable in /bin
                    None
                }),
            },
            _ => None,
        }
    }
    /// Is `name` one of the simulated programs?
    pub fn is_prog(name: &str) -> bool {
        let b = name.as_bytes();
        b.len() >= 2 && b[0] == b'u' && b[1..].iter().all(|c| c.is_ascii_digit())
    }
    /// Resolve to (parent dir, last component, inode if it exists).
    pub fn walk(&mut self, cwd: Ino, path: &str) -> Result<(Ino, String, Option<Ino>), i32> {
        self.walk_n(cwd, path, true, 0)
    }
    /// The same for the link itself if the last component is one.
    pub fn lwalk(&mut self, cwd: Ino, path: &str) -> Result<(Ino, String, Option<Ino>), i32> {
        self.walk_n(cwd, path, path.ends_with('/'), 0)
    }
    fn walk_n(&mut self, cwd: Ino, path: &str, follow: bool, depth: u32) -> Result<(Ino, String, Option<Ino>), i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if depth > 10 {
            return Err(libc::ELOOP);
        }
        let mut cur = if path.starts_with('/') { ROOT } else { cwd };
        let comps: Vec<&str> = path.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        if comps.is_empty() {
            return Ok((cur, String::new(), Some(cur)));
        }
        for (i, c) in comps.iter().enumerate() {
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            if !matches!(self.inodes[cur].node, Node::Dir(_)) {
                return Err(libc::ENOTDIR);
            }
            if self.inodes[cur].nlink == 0 && *c != ".." {
                return Err(libc::ENOENT);
            }
            let mut next = self.child(cur, c);
            if next.is_none() && Some(cur) == self.child(ROOT, "bin") && Self::is_prog(c) {
                next = Some(self.add(cur, c, Node::File(b"\x7fELF".to_vec()), 0o100755));
            }
            let last = i + 1 == comps.len();
            if let Some(Node::Link(t)) = next.map(|n| self.inodes[n].node.clone()).filter(|_| !last || follow) {
                let r = self.walk_n(cur, &t, true, depth + 1)?;
                if last {
                    return Ok(r);
                }
                next = r.2;
            } else if last {
                return Ok((cur, c.to_string(), next));
            }
            cur = next.ok_or(libc::ENOENT)?;
        }
        unreachable!()
    }
    pub fn path_of(&self, mut d: Ino) -> Option<String> {
        let mut parts = vec![];
        while d != ROOT {
            if self.inodes[d].nlink == 0 {
                return None;
            }
            let p = self.inodes[d].parent;
            let n = match &self.inodes[p].node {
                Node::Dir(m) => m.iter().find(|(_, v)| **v == d).map(|(k, _)| k.clone()),
                _ => None,
            }?;
            parts.push(n);
            d = p;
        }
        parts.reverse();
        Some(format!("/{}", parts.join("/")))
    }
    pub fn file_data(&mut self, path: &str) -> Option<Vec<u8>> {
        match self.walk(ROOT, path) {
            Ok((_, _, Some(i))) => match &self.inodes[i].node {
                Node::File(d) => Some(d.clone()),
                _ => None,
            },
            _ => None,
        }
    }

    pub fn new_ofd(&mut self, obj: Obj, flags: i32) -> usize {
        match obj {
            Obj::PipeR(p) => self.pipes[p].readers += 1,
            Obj::PipeW(p) => self.pipes[p].writers += 1,
            Obj::SockEnd(r, w) => {
                self.pipes[r].readers += 1;
                self.pipes[w].writers += 1;
            }
            _ => {}
        }
        self.ofds.push(Ofd { obj, off: 0, flags, refs: 0 });
        self.ofds.len() - 1
    }
    pub fn new_pipe(&mut self, maker: i32) -> (usize, usize) {
        self.pipes.push(Pipe { cap: self.pipe_cap, maker, ..Default::default() });
        let p = self.pipes.len() - 1;
        (self.new_ofd(Obj::PipeR(p), libc::O_RDONLY), self.new_ofd(Obj::PipeW(p), libc::O_WRONLY))
    }
    pub fn incref(&mut self, o: usize) {
        self.ofds[o].refs += 1;
    }
    pub fn decref(&mut self, o: usize) {
        self.ofds[o].refs -= 1;
        if self.ofds[o].refs == 0 {
            match self.ofds[o].obj.clone() {
                Obj::PipeR(p) => self.pipes[p].readers -= 1,
                Obj::PipeW(p) => self.pipes[p].writers -= 1,
                Obj::SockEnd(r, w) => {
                    self.pipes[r].readers -= 1;
                    self.pipes[w].writers -= 1;
                }
                _ => {}
            }
        }
    }
    pub fn unlink_at(&mut self, parent: Ino, name: &str, dir: bool) -> Result<(), i32> {
        let i = self.child(parent, name).ok_or(libc::ENOENT)?;
        match &self.inodes[i].node {
            Node::Dir(m) => {
                if !dir {
                    return Err(libc::EISDIR);
                }
                if !m.is_empty() {
                    return Err(libc::ENOTEMPTY);
                }
            }
            _ => {
                if dir {
                    return Err(libc::ENOTDIR);
                }
            }
        }
        if let Node::Dir(m) = &mut self.inodes[parent].node {
            m.remove(name);
        }
        self.inodes[i].nlink = 0;
        Ok(())
    }
}
