//! Split readers (C08, C09)
use concordance::*;
use serde_json::{json, Value};
use std::cell::Cell;
use std::rc::Rc;
use super::tape::add_run;

/// A symbol that can be counted: every copy holds on to the token
#[derive(Clone)]
struct Counted { v: usize, _token: Rc<()> }

struct Source { n: usize, fused: bool, pulls: Rc<Cell<usize>>, token: Rc<()> }

impl SymbolReader<Counted> for Source {
    fn next_symbol(&mut self) -> Option<Counted> {
        let at = self.pulls.get();
        self.pulls.set(at + 1);
        if at == self.n || (self.fused && at > self.n) { None } else { Some(Counted { v: at, _token: self.token.clone() }) }
    }
}

/// Readers are kept behind raw pointers, as each half borrows the reader that was split: operations are only made in an order that the
/// borrow checker would accept
enum Node {
    Root(*mut Source),
    Boxed(*mut Box<dyn SymbolReader<Counted>>),
    Half(*mut SplitSymbolReader<'static, Counted>)
}

impl Node {
    fn read(&self) -> Option<Counted> {
        unsafe {
            match *self {
                Node::Root(p)  => (*p).next_symbol(),
                Node::Boxed(p) => (*p).next_symbol(),
                Node::Half(p)  => (*p).next_symbol()
            }
        }
    }
    fn split(&self) -> (SplitSymbolReader<'static, Counted>, SplitSymbolReader<'static, Counted>) {
        unsafe {
            match *self {
                Node::Root(p)  => (*p).split(),
                Node::Boxed(p) => (*p).split(),
                Node::Half(p)  => (*p).split()
            }
        }
    }
    fn drop_it(self) {
        unsafe {
            match self {
                Node::Root(p)  => drop(Box::from_raw(p)),
                Node::Boxed(p) => drop(Box::from_raw(p)),
                Node::Half(p)  => drop(Box::from_raw(p))
            }
        }
    }
}

pub fn split(case: &Value) -> Value {
    let pulls  = Rc::new(Cell::new(0));
    let token  = Rc::new(());
    let source = Source { n: case["n"].as_u64().unwrap() as usize, fused: case["fused"].as_bool().unwrap(), pulls: pulls.clone(), token: token.clone() };
    let root   = match case["root"].as_str().unwrap() {
        "plain" => Node::Root(Box::into_raw(Box::new(source))),
        "box"   => Node::Boxed(Box::into_raw(Box::new(Box::new(source)))),
        other   => panic!("unknown root {}", other)
    };
    let mut nodes = vec![Some(root)];
    let mut ev = vec![];
    for op in case["ops"].as_array().unwrap() {
        let r = op[1].as_u64().unwrap() as usize - 1;
        let mut res: Vec<(i64, i64)> = vec![];
        match op[0].as_str().unwrap() {
            "r" => for _ in 0..op[2].as_u64().unwrap() {
                let got = nodes[r].as_ref().unwrap().read();
                add_run(&mut res, got.map(|s| s.v as i64).unwrap_or(-1));
            },
            "s" => {
                let (a, b) = nodes[r].as_ref().unwrap().split();
                nodes.push(Some(Node::Half(Box::into_raw(Box::new(a)))));
                nodes.push(Some(Node::Half(Box::into_raw(Box::new(b)))));
            }
            "d" => nodes[r].take().unwrap().drop_it(),
            other => panic!("unknown op {}", other)
        }
        // The harness and the source each hold the token too
        ev.push(json!({ "res": res, "pulls": pulls.get(), "held": Rc::strong_count(&token) as i64 - 2 }));
    }
    while let Some(n) = nodes.pop() { if let Some(n) = n { n.drop_it(); } }
    json!({ "ev": ev, "left": Rc::strong_count(&token) as i64 - 1 })
}
