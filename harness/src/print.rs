//! C19: the debug printers.

use std::fmt;
use std::rc::Rc;

use crate::check;
use crate::choice::Src;
use crate::cx::*;
use crate::data::{Text, Tracker};
use crate::fixture::{model, shape, Fix, Lim};
use crate::model::Model;
use crate::serial::borrow_some;

const PIECES: &[&str] = &[
    "", "a", "node", "\n", "\n\n", "x y", " ", "  ", "é", "木", "|-- ", "`-- ", "\t", "line1\nline2",
    "z\n", "\nq", "(borrowed)", "🌲", "    ", "\r", "a\r\nb", "\r\n", "\u{2028}", "\u{85}", "\0", "\u{b}", "{}",
    "trail  \nx", "\\n",
];

fn text(src: &mut Src) -> String {
    let mut s = String::new();
    match src.draw(5) {
        0 => {}
        1 if src.chance(1, 60) => {
            let p = ["a", "木", "x\n", "\n", " ", "ab\n\n", "line of some length, "][src.draw(7)];
            s = p.repeat(100 + src.draw(1200));
        }
        1 => s.push_str(["leaf", "b", "multi\nline\ntext", "end\n", "0-1"][src.draw(5)]),
        _ => {
            for _ in 0..src.draw(5) {
                s.push_str(PIECES[src.draw(PIECES.len())]);
            }
        }
    }
    s
}

fn all_text(src: &mut Src) -> Text {
    let mut t = Text::default();
    if src.chance(1, 2) {
        let s = text(src);
        t.s = [s.clone(), s.clone(), s.clone(), s];
    } else {
        for i in 0..4 {
            t.s[i] = text(src);
        }
    }
    t.cut = src.draw(4);
    t
}

/// What the pretty printer prints: the indents and contents of the lines.
fn pretty(m: &Model, n: usize, texts: &[Rc<Text>], debug: bool, alt: bool) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = Vec::new();
    fn item(
        m: &Model,
        n: usize,
        texts: &[Rc<Text>],
        form: (bool, bool),
        first: &str,
        rest: &str,
        out: &mut Vec<(String, String)>,
    ) {
        let s = if m.nodes[n].xb {
            "(borrowed)"
        } else {
            texts[n].form(form.0, form.1)
        };
        // Other line ends are content.
        let lines = s.strip_suffix('\n').unwrap_or(s).split('\n');
        for (i, l) in lines.enumerate() {
            let p = if i == 0 { first } else { rest };
            out.push((p.to_string(), l.to_string()));
        }
        let k = m.nodes[n].children.len();
        for (i, c) in m.nodes[n].children.iter().enumerate() {
            let (a, b) = if i + 1 == k {
                ("`-- ", "    ")
            } else {
                ("|-- ", "|   ")
            };
            item(m, *c, texts, form, &format!("{rest}{a}"), &format!("{rest}{b}"), out);
        }
    }
    item(m, n, texts, (debug, alt), "", "", &mut out);
    out
}

/// The lines are there. The last newline is part of the last item or not there; indents of empty
/// lines may lack their trailing spaces.
fn lines_are(got: &str, want: &[(String, String)]) -> bool {
    let got: Vec<&str> = got.strip_suffix('\n').unwrap_or(got).split('\n').collect();
    got.len() == want.len()
        && got.iter().zip(want).all(|(g, (p, l))| {
            g.strip_prefix(p.as_str()) == Some(l.as_str())
                || (l.is_empty() && g.trim_end_matches(' ') == p.trim_end_matches(' '))
        })
}

/// Writer that fails once, after a number of bytes.
struct Limited {
    left: usize,
    text: String,
    failed: bool,
}
impl fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if !self.failed && s.len() > self.left {
            self.failed = true;
            return Err(fmt::Error);
        }
        if !self.failed {
            self.left -= s.len();
            self.text.push_str(s);
        }
        Ok(())
    }
}

fn form(
    what: &str,
    debug: bool,
    alt: bool,
    limit: Option<usize>,
    x: &(impl fmt::Debug + ?Sized),
    d: Option<&dyn fmt::Display>,
) -> Option<String> {
    let print = |w: &mut dyn fmt::Write| match (debug, alt, d) {
        (true, false, _) | (false, false, None) => write!(w, "{x:?}"),
        (true, true, _) | (false, true, None) => write!(w, "{x:#?}"),
        (false, false, Some(d)) => write!(w, "{d}"),
        (false, true, Some(d)) => write!(w, "{d:#}"),
    };
    let mut o = String::new();
    let r = print(&mut o);
    check!(C19, r.is_ok(), "{what}: printing failed");
    // An error of the writer (even a passing one) must make the printer fail, not panic.
    if let Some(l) = limit {
        let l = if o.is_empty() { 0 } else { l % (o.len() + 2) };
        let mut w = Limited {
            left: l,
            text: String::new(),
            failed: false,
        };
        let r = print(&mut w);
        check!(
            C19,
            r.is_err() == w.failed,
            "{what}: the writer fails: {} (after {l} bytes), but printing gives {r:?}: {o:?}",
            w.failed
        );
        check!(
            C19,
            o.starts_with(&w.text),
            "{what}: printed {:?} until the writer failed, but {o:?} when it does not",
            w.text
        );
    }
    Some(o)
}

/// The items of the structural printers in the order they appear.
fn tokens(s: &str) -> Vec<String> {
    let mut v = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'<' {
            if let Some(e) = s[i..].find('>') {
                let t = &s[i..i + e + 1];
                let inner = &t[1..t.len() - 1];
                let num = inner
                    .split_once(':')
                    .is_some_and(|(a, b)| a.parse::<u32>().is_ok() && b.parse::<u32>().is_ok());
                if num || inner == "borrowed" {
                    v.push(t.to_string());
                    i += e + 1;
                    continue;
                }
            }
        }
        i += 1;
    }
    v
}

fn want_tokens(m: &Model, order: &[usize]) -> Vec<String> {
    order
        .iter()
        .map(|n| {
            let x = &m.nodes[*n];
            if x.xb {
                "<borrowed>".to_string()
            } else {
                format!("<{}:{}>", x.did, x.val)
            }
        })
        .collect()
}

pub fn c19(src: &mut Src) {
    let t = C19;
    let lim = Lim {
        small: 10,
        big: 30,
        one_in: 15,
        vals: 0,
    };
    let tr = Tracker::new();
    let s = shape(src, &lim);
    let (m0, mut data) = model(src, &s, &lim, &tr);
    let structural = src.chance(1, 3);
    let mut texts: Vec<Rc<Text>> = Vec::new();
    if !structural {
        for d in &mut data {
            let x = Rc::new(all_text(src));
            d.text = Some(x.clone());
            texts.push(x);
        }
    }
    let f = Fix::put(src, tr, &s, m0, data);
    let mut m = f.m.clone();
    let held = if src.chance(1, 2) {
        Some(borrow_some(src, &f, &mut m))
    } else {
        None
    };
    let n = if src.chance(1, 2) { 0 } else { src.draw(f.h.len()) };
    let sub = m.subtree(n);
    if sub.len() >= 3 {
        nontrivial();
    }
    if sub.iter().any(|x| m.nodes[*x].xb) {
        class("with exclusively borrowed data");
    }
    let kind = src.draw(4);
    let (debug, alt) = (src.chance(1, 2), src.chance(1, 2));
    let limit = if src.chance(1, 5) { Some(src.draw(1 << 16)) } else { None };
    log(|| {
        format!(
            "print n{n}, handle kind {kind}, debug {debug}, alternate {alt}, structural {structural}, texts {:?}",
            texts.iter().map(|t| t.form(debug, alt)).collect::<Vec<_>>()
        )
    });
    if !structural {
        class(match (debug, alt) {
            (false, false) => "pretty, display",
            (false, true) => "pretty, alternate display",
            (true, false) => "pretty, debug",
            (true, true) => "pretty, alternate debug",
        });
        if sub.iter().any(|x| !m.nodes[*x].xb && texts[*x].form(debug, alt).is_empty()) {
            class("with an empty text");
        }
        if sub
            .iter()
            .any(|x| !m.nodes[*x].xb && texts[*x].form(debug, alt).lines().count() > 1)
        {
            class("with a multi-line text");
        }
        let top = if kind == 3 { 0 } else { n };
        let got = lib(t, || match kind {
            0 => {
                let p = f.h[n].debug_pretty_print();
                form("pretty", debug, alt, limit, &p, Some(&p))
            }
            1 => {
                let h = f.frozen(n);
                let p = h.debug_pretty_print();
                form("pretty", debug, alt, limit, &p, Some(&p))
            }
            2 => {
                let h = f.hot(n);
                let p = h.debug_pretty_print();
                form("pretty", debug, alt, limit, &p, Some(&p))
            }
            _ => {
                let h = f.h[n].tree();
                let p = h.debug_pretty_print();
                form("pretty", debug, alt, limit, &p, Some(&p))
            }
        })
        .unwrap();
        let want = pretty(&m, top, &texts, debug, alt);
        check!(
            t,
            lines_are(&got, &want),
            "pretty print of {} (display/debug {debug}, alternate {alt}):\n{got}\nexpected:\n{}",
            m.show(top),
            want.iter().map(|(p, l)| format!("{p}{l}")).collect::<Vec<_>>().join("\n")
        );
    }
    // The structural printers.
    let way = src.draw(8);
    // Pretty-printed output of nested structures costs the cube of the depth.
    let alt = alt && (0..m.nodes.len()).all(|x| m.depth(x) < 40);
    let form_of = |what: &str, x: &dyn fmt::Debug| form(what, true, alt, limit, x, None).unwrap();
    let (what, got, want): (&str, String, Option<Vec<usize>>) = lib(t, || match way {
        0 => match kind {
            0 => ("Node::debug_print_local", form_of("local", &f.h[n].debug_print_local()), Some(vec![n])),
            1 => ("FrozenNode::debug_print_local", form_of("local", &f.frozen(n).debug_print_local()), Some(vec![n])),
            _ => ("HotNode::debug_print_local", form_of("local", &f.hot(n).debug_print_local()), Some(vec![n])),
        },
        1..=3 => match kind {
            0 => ("Node::debug_print_subtree", form_of("subtree", &f.h[n].debug_print_subtree()), Some(sub.clone())),
            1 => ("FrozenNode::debug_print_subtree", form_of("subtree", &f.frozen(n).debug_print_subtree()), Some(sub.clone())),
            _ => ("HotNode::debug_print_subtree", form_of("subtree", &f.hot(n).debug_print_subtree()), Some(sub.clone())),
        },
        4 => ("Tree::debug_print", form_of("tree", &f.h[n].tree().debug_print()), Some(m.subtree(0))),
        5 => ("Tree::debug_print_local", form_of("tree local", &f.h[n].tree().debug_print_local()), Some(vec![])),
        6 => match kind {
            0 => ("Debug of Node", form_of("Node", &f.h[n]), Some(vec![n])),
            1 => ("Debug of FrozenNode", form_of("FrozenNode", &f.frozen(n)), Some(vec![n])),
            2 => ("Debug of HotNode", form_of("HotNode", &f.hot(n)), Some(vec![n])),
            _ => ("Debug of Tree", form_of("Tree", &f.h[n].tree()), Some(vec![])),
        },
        _ => {
            // Other objects that hold nodes or trees: only that they can be printed.
            let mut all = String::new();
            let h = &f.h[n];
            all.push_str(&form_of("NodeWeak", &h.downgrade()));
            all.push_str(&form_of("TreeWeak", &h.tree().downgrade()));
            all.push_str(&form_of("traverser", &h.depth_first_traverse()));
            all.push_str(&form_of("ancestors", &h.ancestors()));
            if kind % 2 == 0 {
                let g = h.tree().grant_hierarchy_edit();
                if let Ok(_g) = &g {
                    all.push_str(&form_of("granted tree", &h.tree().debug_print_local()));
                }
            } else {
                let g = h.tree().prohibit_hierarchy_edit();
                if let Ok(_g) = &g {
                    all.push_str(&form_of("prohibited tree", &h.tree().debug_print_local()));
                }
                all.push_str(&form_of("stable traverser", &f.frozen(n).depth_first_traverse_stable()));
            }
            // Weak references to what is gone.
            let (w, tw) = {
                let x = dendron::Node::new_tree(f.tr.make(1));
                (x.downgrade(), x.tree().downgrade())
            };
            all.push_str(&form_of("dead NodeWeak", &w));
            all.push_str(&form_of("dead TreeWeak", &tw));
            ("other objects", all, None)
        }
    });
    class(what);
    log(|| format!("and {what}"));
    if structural {
        if let Some(order) = &want {
            let g = tokens(&got);
            let w = want_tokens(&m, order);
            check!(
                t,
                g == w,
                "{what} of n{n} in {} shows {g:?}, expected {w:?}: {got}",
                m.show(0)
            );
        }
    }
    // The local printers show which neighbours exist.
    if structural && (way == 0 || way == 6) && !(way == 6 && kind == 3) {
        let x = &m.nodes[n];
        let i = x.parent.map(|p| (m.index(n), m.nodes[p].children.len()));
        for (label, there) in [
            ("parent: ", x.parent.is_some()),
            ("prev_sibling: ", i.is_some_and(|(i, _)| i > 0)),
            ("next_sibling: ", i.is_some_and(|(i, k)| i + 1 < k)),
            ("first_child: ", !x.children.is_empty()),
        ] {
            let some = got.contains(&format!("{label}Some"));
            let none = got.contains(&format!("{label}None"));
            check!(
                t,
                !(there && none || !there && some),
                "{what} of n{n} in {} shows the wrong '{label}': {got}",
                m.show(0)
            );
        }
    }
    drop(held);
    // Printing leaves nothing borrowed.
    for (i, x) in f.h.iter().enumerate() {
        lib(t, || {
            check!(
                t,
                x.try_borrow_data_mut().is_ok(),
                "printing left the datum of n{i} borrowed"
            );
        });
    }
}
