//! Canonical form of the internal state, from its Debug text.
//!
//! Slab positions and the layout of the hash table are abstracted away: the state is the sequence of entries of
//! each ring from its head, the set of entries in no ring, the scalars, and, for guards held by the caller, where
//! their slot is. Anything that is not understood is kept verbatim, which only splits states, never merges them.
use std::fmt::Write;

#[derive(Debug, Clone)]
enum Node<'a> {
    Atom(&'a str),
    Struct(&'a str, Vec<(&'a str, Node<'a>)>),
    Tuple(&'a str, Vec<Node<'a>>),
    List(Vec<Node<'a>>),
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        let b = self.s.as_bytes();
        while self.i < b.len() && (b[self.i] == b' ' || b[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.s.as_bytes().get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let b = self.s.as_bytes();
        while self.i < b.len() && !b" ,(){}[]:\n".contains(&b[self.i]) {
            self.i += 1;
        }
        // paths such as a::b are one word
        &self.s[st..self.i]
    }
    fn node(&mut self) -> Option<Node<'a>> {
        self.ws();
        if self.eat(b'[') {
            return self.list(b']').map(Node::List);
        }
        let w = self.word();
        match self.peek() {
            b'(' => {
                self.i += 1;
                self.list(b')').map(|l| Node::Tuple(w, l))
            }
            b' ' if self.s[self.i..].starts_with(" {") => {
                self.i += 2;
                self.fields(w)
            }
            b'{' => {
                self.i += 1;
                self.fields(w)
            }
            _ => {
                if w.is_empty() {
                    None
                } else {
                    Some(Node::Atom(w))
                }
            }
        }
    }
    fn list(&mut self, end: u8) -> Option<Vec<Node<'a>>> {
        let mut l = vec![];
        loop {
            if self.eat(end) {
                return Some(l);
            }
            l.push(self.node()?);
            self.eat(b',');
        }
    }
    fn fields(&mut self, name: &'a str) -> Option<Node<'a>> {
        let mut l = vec![];
        loop {
            if self.eat(b'}') {
                return Some(Node::Struct(name, l));
            }
            let f = self.word();
            if f == ".." {
                l.push(("..", Node::Atom("..")));
                self.eat(b',');
                continue;
            }
            if f.is_empty() {
                // a set of values
                let n = self.node()?;
                l.push(("", n));
            } else if self.eat(b':') {
                let n = self.node()?;
                l.push((f, n));
            } else {
                l.push(("", Node::Atom(f)));
            }
            self.eat(b',');
        }
    }
}

impl<'a> Node<'a> {
    fn field(&self, n: &str) -> Option<&Node<'a>> {
        match self {
            Node::Struct(_, f) => f.iter().find(|x| x.0 == n).map(|x| &x.1),
            _ => None,
        }
    }
    fn num(&self) -> Option<u32> {
        match self {
            Node::Atom(a) => a.parse().ok(),
            _ => None,
        }
    }
    fn some(&self) -> Option<&Node<'a>> {
        match self {
            Node::Tuple("Some", v) if v.len() == 1 => Some(&v[0]),
            _ => None,
        }
    }
    /// Text without the slab position `own`, pointers and such.
    fn text(&self, own: u32, out: &mut String) {
        match self {
            Node::Atom(a) if a.starts_with("0x") => out.push('@'),
            Node::Atom(a) => out.push_str(a),
            Node::Struct(n, f) => {
                out.push_str(n);
                out.push('{');
                for (k, v) in f {
                    if *k == "idx" && v.num() == Some(own) {
                        continue;
                    }
                    out.push_str(k);
                    out.push(':');
                    v.text(own, out);
                    out.push(',');
                }
                out.push('}');
            }
            Node::Tuple(n, l) => {
                out.push_str(n);
                out.push('(');
                for v in l {
                    v.text(own, out);
                    out.push(',');
                }
                out.push(')');
            }
            Node::List(l) => {
                out.push('[');
                for v in l {
                    v.text(own, out);
                    out.push(',');
                }
                out.push(']');
            }
        }
    }
}

pub struct Canon {
    pub text: String,
    /// number of occupied slots, 0 if unknown
    pub entries: usize,
    /// slots with a placeholder of a key, by key text
    pub placeholders: Vec<(String, u32)>,
    pub parsed: bool,
}

/// `held`: slots of the guards the caller holds.
pub fn canon(dump: &str, held: &[u32]) -> Canon {
    let mut c = Canon {
        text: String::with_capacity(512),
        entries: 0,
        placeholders: vec![],
        parsed: true,
    };
    for line in dump.lines() {
        if shard(line, held, &mut c).is_none() {
            c.parsed = false;
            // verbatim, except for the statistics, which grow with every lookup
            for part in line.split(", ") {
                if !part.starts_with("hits: ") && !part.starts_with("misses: ") {
                    c.text.push_str(part);
                    c.text.push(',');
                }
            }
        }
        c.text.push('\n');
    }
    c
}

fn shard(line: &str, held: &[u32], c: &mut Canon) -> Option<()> {
    let mut p = P { s: line, i: 0 };
    let root = p.node()?;
    p.ws();
    if p.i != line.len() {
        return None;
    }
    let Node::Struct(_, fields) = &root else {
        return None;
    };
    let slab = root.field("entries")?;
    let Node::List(slots) = slab.field("entries")? else {
        return None;
    };
    let Node::Struct(_, slabf) = slab else {
        return None;
    };
    if slabf.len() != 2 {
        return None;
    }
    let next_free = slab.field("next_free")?.num()?;
    let map: Vec<&Node> = match root.field("map")? {
        Node::List(l) => l.iter().collect(),
        Node::Struct("", l) => l.iter().map(|x| &x.1).collect(),
        _ => return None,
    };
    let n = slots.len();
    struct Slot {
        text: Option<String>,
        next: u32,
        prev: u32,
        seen: bool,
    }
    let mut s: Vec<Slot> = Vec::with_capacity(n);
    for (i, e) in slots.iter().enumerate() {
        let item = e.field("item")?;
        let Node::Struct(_, ef) = e else { return None };
        if ef.len() != 3 {
            return None;
        }
        let own = i as u32 + 1;
        let text = item.some().map(|x| {
            if let Node::Tuple("Placeholder", l) = x {
                if let Some(Node::Atom(k)) = l.first().and_then(|p| p.field("key")) {
                    c.placeholders.push((k.to_string(), own));
                }
            }
            let mut t = String::with_capacity(80);
            x.text(own, &mut t);
            t
        });
        s.push(Slot {
            text,
            next: e.field("next")?.num()?,
            prev: e.field("prev")?.num()?,
            seen: false,
        });
    }
    c.entries += s.iter().filter(|x| x.text.is_some()).count();
    // hash table: how often each slot is in it
    let mut inmap = vec![0u8; n + 1];
    for t in map {
        let t = t.num()? as usize;
        if t == 0 || t > n {
            return None;
        }
        inmap[t] += 1;
        if s[t - 1].text.is_none() {
            return None;
        }
    }
    for (i, sl) in s.iter_mut().enumerate() {
        if let Some(t) = &mut sl.text {
            write!(t, "#{}", inmap[i + 1]).unwrap();
        }
    }
    let out_start = c.text.len();
    let fail = |c: &mut Canon| {
        c.text.truncate(out_start);
        None
    };
    for (name, v) in fields {
        match *name {
            "entries" | "map" | "hits" | "misses" => continue,
            _ => (),
        }
        if name.ends_with("_head") {
            write!(c.text, "{name}<").unwrap();
            if let Some(h) = v.some() {
                let Some(h) = h.num() else { return fail(c) };
                let mut i = h;
                loop {
                    if i == 0 || i as usize > n || s[i as usize - 1].seen {
                        return fail(c);
                    }
                    let sl = &mut s[i as usize - 1];
                    sl.seen = true;
                    let (next, Some(t)) = (sl.next, &sl.text) else {
                        return fail(c);
                    };
                    c.text.push_str(t);
                    c.text.push('|');
                    if next == 0 || next as usize > n || s[next as usize - 1].prev != i {
                        return fail(c);
                    }
                    i = next;
                    if i == h {
                        break;
                    }
                }
            }
            c.text.push('>');
        } else {
            write!(c.text, "{name}=").unwrap();
            v.text(0, &mut c.text);
            c.text.push(';');
        }
    }
    let mut rest: Vec<String> = vec![];
    for (i, sl) in s.iter().enumerate() {
        if !sl.seen {
            if let Some(t) = &sl.text {
                if sl.next != i as u32 + 1 || sl.prev != i as u32 + 1 {
                    return fail(c);
                }
                rest.push(t.clone());
            }
        }
    }
    rest.sort_unstable();
    for r in rest {
        c.text.push_str(&r);
        c.text.push('&');
    }
    // where the slots of held guards are
    for &h in held {
        if h == 0 {
            c.text.push_str("g?");
            continue;
        }
        let t = if h as usize <= n { s[h as usize - 1].text.clone() } else { None };
        if let Some(t) = t {
            write!(c.text, "g@{t}").unwrap();
        } else {
            // position in the free list, or beyond the end
            let mut i = next_free;
            let mut pos = 0;
            while i != h && (i as usize) <= n && pos <= n {
                i = s[i as usize - 1].next;
                pos += 1;
            }
            if i != h {
                // beyond the end of the slab
                pos += h as usize - n.min(h as usize);
            }
            write!(c.text, "gf{pos}").unwrap();
        }
    }
    Some(())
}
