/// An operation: a name, its arguments, and for a session (an iterator's or a focus' life) the
/// commands given to it.
#[derive(Clone, Debug)]
pub struct Op {
    pub name: String,
    pub a: Vec<i64>,
    pub cmds: Option<Vec<Vec<i64>>>,
    /// the last command of the session is meant to panic
    pub tail_panics: bool,
}

impl Op {
    pub fn new(name: &str, a: &[i64]) -> Op {
        Op { name: name.to_string(), a: a.to_vec(), cmds: None, tail_panics: false }
    }
    pub fn sess(name: &str, a: &[i64], cmds: Vec<Vec<i64>>) -> Op {
        Op { name: name.to_string(), a: a.to_vec(), cmds: Some(cmds), tail_panics: false }
    }
    pub fn text(&self) -> String {
        let j = |v: &[i64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let mut s = format!("{} {}", self.name, j(&self.a));
        if let Some(c) = &self.cmds {
            s.push_str(" | ");
            s.push_str(&c.iter().map(|x| j(x)).collect::<Vec<_>>().join(" ; "));
            if self.tail_panics {
                s.push_str(" !");
            }
        }
        s
    }
    pub fn parse(line: &str) -> Option<Op> {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            return None;
        }
        let (line, tail) = match line.strip_suffix('!') {
            Some(l) => (l.trim(), true),
            None => (line, false),
        };
        let nums = |s: &str| s.split_whitespace().map(|x| x.parse::<i64>().unwrap()).collect::<Vec<_>>();
        let (head, cmds) = match line.split_once('|') {
            Some((h, c)) => (h, Some(c.split(';').map(nums).filter(|x| !x.is_empty()).collect())),
            None => (line, None),
        };
        let (name, args) = head.trim().split_once(' ').unwrap_or((head.trim(), ""));
        Some(Op { name: name.to_string(), a: nums(args), cmds, tail_panics: tail })
    }
}

impl Op {
    /// Which arguments name a vector that exists, and which one that does not yet.
    fn handles(&self) -> (Vec<i64>, Vec<i64>) {
        let a = &self.a;
        let g = |i: usize| a.get(i).copied().unwrap_or(-1);
        match self.name.as_str() {
            "new" | "default" | "single" | "from_iter" | "macro" | "const" | "bomb_from_iter" => (vec![], vec![g(0)]),
            "clone" => (vec![g(0)], vec![g(1)]),
            "clone_from" | "append" | "prepend" | "append_clone" | "prepend_clone" | "dual" | "bomb_dual" | "cmp" | "pcmp" => (vec![g(0), g(1)], vec![]),
            "split_off" => (vec![g(0)], vec![g(2)]),
            "extract" => (vec![g(0)], vec![g(5)]),
            "bomb_clone" => match g(1) {
                1 => (vec![g(0), g(2)], vec![]),
                2 => (vec![g(0)], vec![g(2)]),
                _ => (vec![g(0)], vec![]),
            },
            "conc" => (vec![], vec![]),
            _ => (vec![g(0)], vec![]),
        }
    }
    /// Can this be run when these vectors exist? A script cut down to size asks.
    pub fn fits(&self, alive: &[bool]) -> bool {
        let (live, free) = self.handles();
        let is = |h: &i64| *h >= 0 && (*h as usize) < alive.len() && alive[*h as usize];
        let not = |h: &i64| *h >= 0 && (*h as usize) < alive.len() && !alive[*h as usize];
        live.iter().all(is)
            && free.iter().all(not)
            && (live.len() < 2 || live[0] != live[1] || self.name == "pcmp" || self.name.ends_with("_clone") && self.name != "bomb_clone")
    }
}
