//! The renderer: replay of MCRender behaviours.

use harness::{ptrs::*, *};
use std::collections::{BTreeMap, BTreeSet};
use triple_arena::{Arena, Link};
use triple_arena_render::{
    internal::{grid_process, RenderGrid, RenderNode},
    render_to_svg, render_to_svg_file, DebugNode, RenderError,
};

type Rect = (i32, i32, i32, i32);

fn has(r: &Rect, x: i32, y: i32) -> bool {
    r.0 <= x && x <= r.0 + r.2 && r.1 <= y && y <= r.1 + r.3
}

/// The parts of a node are inside of its box, and do not hide each other.
fn inside<P: PX>(node: &RenderNode<P>, cx: &mut Cx) {
    cx.eq("place", "boxes of a node", node.rects.len(), 1);
    let Some(r) = node.rects.first() else { return };
    cx.check(r.2 > 0 && r.3 > 0, "place", || "a box without area".into());
    for (i, ((x, y), size, len, t)) in node.text.iter().enumerate() {
        cx.check(*size > 0 && (*len > 0 || t.is_empty()), "place", || format!("invisible text {t:?}"));
        cx.check(has(r, *x, *y) && has(r, x + len, *y), "place", || format!("text {t:?} is outside of its node"));
        for ((x1, y1), _, len1, t1) in &node.text[..i] {
            // from the top to the bottom
            let apart = y1 < y || (y1 == y && x1 + len1 <= *x);
            cx.check(apart, "place", || format!("text {t:?} is not behind or below {t1:?}"));
        }
    }
    for ((x, y), ..) in &node.input_points {
        cx.check(has(r, *x, *y), "edge", || "a line ends outside of the node".into());
    }
    for ((x, y), _) in &node.output_points {
        cx.check(has(r, *x, *y), "edge", || "a line starts outside of the node".into());
    }
}

/// the numbers of an attribute
fn attr(el: &str, name: &str) -> Vec<i32> {
    let Some((_, v)) = el.split_once(&format!(" {name}=\"")) else { return vec![] };
    let v = v.split('"').next().unwrap_or("");
    v.split(|c: char| !(c == '-' || c.is_ascii_digit())).filter_map(|x| x.parse().ok()).collect()
}

fn elements<'a>(svg: &'a str, name: &str) -> Vec<&'a str> {
    svg.split(&format!("<{name} ") as &str).skip(1).map(|e| e.split("/>").next().unwrap_or("")).collect()
}

/// The file shows what is in the grid.
fn drawing<P: PX>(svg: &str, rg: &RenderGrid<P>, cx: &mut Cx) {
    let nodes: Vec<&RenderNode<P>> = rg.grid.iter().flatten().flatten().collect();
    let mut boxes: Vec<Vec<i32>> = nodes.iter().flat_map(|n| &n.rects).map(|r| vec![r.0, r.1, r.2, r.3]).collect();
    let mut shown: Vec<Vec<i32>> = elements(svg, "rect")
        .iter()
        .skip(1)
        .map(|e| {
            let e = &format!(" {e}");
            ["x", "y", "width", "height"].iter().flat_map(|a| attr(e, a)).collect()
        })
        .collect();
    boxes.sort();
    shown.sort();
    cx.check(boxes == shown, "place", || format!("boxes {boxes:?}, drawn {shown:?}"));
    if let Some(v) = elements(svg, "svg").first().map(|e| attr(&format!(" {e}"), "viewBox")) {
        let all = v.len() == 4 && boxes.iter().all(|b| {
            let v = (v[0], v[1], v[2], v[3]);
            has(&v, b[0], b[1]) && has(&v, b[0] + b[2], b[1] + b[3])
        });
        cx.check(all, "place", || "a box is outside of the view".into());
    } else {
        cx.fail("place", "no view");
    }
    // texts, where they are and what they say
    let mut texts: Vec<(Vec<i32>, String)> =
        nodes.iter().flat_map(|n| &n.text).map(|t| (vec![t.0 .0, t.0 .1], escape(&t.3))).collect();
    let mut shown: Vec<(Vec<i32>, String)> = svg
        .split("<text ")
        .skip(1)
        .map(|e| {
            let (head, t) = e.split_once('>').unwrap_or((e, ""));
            let head = &format!(" {head}");
            let at = ["x", "y"].iter().flat_map(|a| attr(head, a)).collect();
            (at, t.split("</text>").next().unwrap_or("").to_string())
        })
        .collect();
    texts.sort();
    shown.sort();
    cx.check(texts == shown, "place", || format!("texts {texts:?}, drawn {shown:?}"));
    // lines, by the nodes at their ends
    let at = |x: i32, y: i32| {
        let n: Vec<P> = nodes.iter().filter(|n| n.rects.iter().any(|r| has(r, x, y))).map(|n| n.ptr).collect();
        n.first().copied()
    };
    let mut lines: Vec<(Option<P>, Option<P>)> =
        nodes.iter().flat_map(|n| n.input_points.iter().map(|i| (Some(i.1), Some(n.ptr)))).collect();
    let mut shown: Vec<(Option<P>, Option<P>)> = elements(svg, "path")
        .iter()
        .map(|e| {
            let d = attr(&format!(" {e}"), "d");
            let n = d.len();
            if n < 4 {
                (None, None)
            } else {
                (at(d[0], d[1]), at(d[n - 2], d[n - 1]))
            }
        })
        .collect();
    lines.sort();
    shown.sort();
    cx.check(lines == shown, "edge", || format!("lines {lines:?}, drawn {shown:?}"));
}

/// how nodes and edges are labelled
struct Labels<const L: u8>;

impl<const L: u8> Labels<L> {
    fn node(h: i64) -> Vec<String> {
        match L {
            0 => vec![format!("n{h}.")],
            1 => vec![format!("<n{h}.&\"'>"), "second & line".into(), String::new()],
            _ => vec![],
        }
    }

    fn edge(h: i64, i: usize) -> String {
        match L {
            1 if i % 2 == 0 => format!("e{h}<{i}"),
            _ => String::new(),
        }
    }
}

struct Graph<P: PX, const L: u8> {
    a: Arena<P, DebugNode<P>>,
    ptrs: BTreeMap<i64, P>,
}

fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('"', "&quot;").replace('\'', "&apos;").replace('<', "&lt;").replace('>', "&gt;")
}

impl<P: PX, const L: u8> Graph<P, L> {
    fn p(&self, h: i64) -> P {
        self.ptrs.get(&h).copied().unwrap_or(P::invalid())
    }

    /// Is it the picture? Where equal graphs have different pictures it cannot be told.
    fn may_be(&self, got: &str, strict: bool) -> bool {
        let one = render_to_svg(&self.a, strict).unwrap();
        got == one || (0..20).any(|_| render_to_svg(&self.a, strict).unwrap() != one)
    }

    /// the same picture for a graph of links
    fn links(&self, strict: bool, cx: &mut Cx) {
        let mut b: Arena<P, Link<P, DebugNode<P>>> = Arena::new();
        b.clone_from_with(&self.a, |p, n| Link::new((Some(p), None), n.clone()));
        match render_to_svg(&b, strict) {
            Ok(got) => cx.check(self.may_be(&got, strict), "place", || "another picture of links".into()),
            Err(e) => cx.fail("dangling", format!("error {e:?} for links")),
        }
    }

    /// the same picture in a file
    fn file(&self, strict: bool, cx: &mut Cx) {
        let name = format!("render-{}-{:?}.svg", std::process::id(), std::thread::current().id());
        let path = std::env::temp_dir().join(name);
        // the second time there is a longer one already
        for old in [None, Some("x".repeat(100_000))] {
            if let Some(old) = old {
                std::fs::write(&path, old).unwrap();
            }
            match render_to_svg_file(&self.a, strict, path.clone()) {
                Ok(()) => {
                    let got = std::fs::read_to_string(&path).unwrap_or_default();
                    cx.check(self.may_be(&got, strict), "place", || "another picture in the file".into());
                }
                Err(e) => cx.fail("dangling", format!("error {e:?} of the file")),
            }
        }
        let _ = std::fs::remove_file(&path);
    }

    /// the picture of the whole graph
    fn picture(&self, rg: &RenderGrid<P>, s: &Value, cx: &mut Cx) {
        let live = ints(&s["live"]);
        let mut own: BTreeMap<P, i64> = live.iter().map(|h| (self.p(*h), *h)).collect();
        // extra nodes show a pointer
        let named: BTreeMap<String, i64> = live.iter().map(|h| (format!("{:?}", self.p(*h)), *h)).collect();
        let gone: BTreeSet<String> =
            ints(&s["dangling"]).iter().map(|h| format!("{:?}(invalid)", self.p(*h))).collect();
        let mut shown_gone = BTreeSet::new();
        // node of the picture -> handle it stands for, 0 for what is not there
        let mut stands: BTreeMap<P, i64> = BTreeMap::new();
        let mut rects = vec![];
        for (i, col) in rg.grid.iter().enumerate() {
            for (j, node) in col.iter().enumerate() {
                let Some(node) = node else { continue };
                cx.eq("place", "grid_position", rg.dag.get(node.ptr).map(|n| n.grid_position), Some((i, j)));
                inside(node, cx);
                rects.extend(node.rects.iter().copied());
                if let Some(h) = own.remove(&node.ptr) {
                    stands.insert(node.ptr, h);
                    let d = &self.a[node.ptr];
                    let text: Vec<String> = node.text.iter().map(|t| t.3.clone()).collect();
                    let label = |e: &(P, String)| (!e.1.is_empty()).then(|| e.1.clone());
                    let want: Vec<String> = d
                        .sources
                        .iter()
                        .filter_map(label)
                        .chain(d.center.clone())
                        .chain(d.sinks.iter().filter_map(label))
                        .collect();
                    cx.eq("place", "text of a node", text, want);
                    continue
                }
                let t = node.text.iter().map(|t| t.3.clone()).collect::<Vec<_>>().join("\n");
                if let Some(h) = named.get(&t) {
                    stands.insert(node.ptr, *h);
                } else if gone.contains(&t) {
                    stands.insert(node.ptr, 0);
                    shown_gone.insert(t);
                } else if live.iter().any(|h| self.p(*h) == node.ptr) {
                    cx.fail("place", format!("node {:?} is shown twice", node.ptr));
                } else {
                    cx.fail("place", format!("a node {t:?} that is not in the arena"));
                }
            }
        }
        for (p, h) in own {
            cx.fail("place", format!("node {h} ({p:?}) is not shown"));
        }
        cx.eq("dangling", "invalid pointers shown", shown_gone, gone);
        for (i, r) in rects.iter().enumerate() {
            cx.check(r.0 >= 0 && r.1 >= 0 && r.0 + r.2 <= rg.tot_wx && r.1 + r.3 <= rg.tot_wy, "place", || {
                "a node outside of the picture".into()
            });
            for q in &rects[..i] {
                let apart = r.0 + r.2 <= q.0 || q.0 + q.2 <= r.0 || r.1 + r.3 <= q.1 || q.1 + q.3 <= r.1;
                cx.check(apart, "place", || format!("nodes overlap: {r:?} {q:?}"));
            }
        }
        if !cx.divs.is_empty() {
            return
        }
        // lines
        let mut lines: BTreeSet<(P, P)> = BTreeSet::new();
        for node in rg.grid.iter().flatten().flatten() {
            for (_, from, inx) in &node.input_points {
                lines.insert((*from, node.ptr));
                let (i, j) = rg.dag[*from].grid_position;
                let out = &rg.grid[i][j].as_ref().unwrap().output_points;
                match out.get(inx.unwrap_or(0)) {
                    None => cx.fail("edge", format!("a line from nothing to {:?}", node.ptr)),
                    Some(_) => (),
                }
            }
        }
        let drawn: BTreeSet<(i64, i64)> = lines.iter().map(|(x, y)| (stands[x], stands[y])).collect();
        let listed: BTreeSet<(i64, i64)> = rows(&s["arrows"])
            .iter()
            .map(|x| {
                let at = |h: i64| if live.contains(&h) { h } else { 0 };
                (at(x[0]), at(x[1]))
            })
            .collect();
        for e in &listed {
            cx.check(drawn.contains(e), "edge", || format!("the edge {e:?} is not drawn"));
        }
        for e in &drawn {
            cx.check(e.0 == e.1 || listed.contains(e), "edge", || format!("a line {e:?} that is not an edge"));
        }
        // no cycles are left
        let mut left: BTreeSet<(P, P)> = lines;
        loop {
            let n = left.len();
            let to: BTreeSet<P> = left.iter().map(|x| x.1).collect();
            left.retain(|x| to.contains(&x.0));
            if left.len() == n {
                break
            }
        }
        cx.check(left.is_empty(), "cycle", || format!("lines form a cycle: {left:?}"));
    }
}

impl<P: PX, const L: u8> Sys for Graph<P, L> {
    fn new() -> Self {
        let mut a = Arena::new();
        if P::has_gen() && P::max_gen() == 255 {
            // all but the last generations are used up
            while P::gen_num(a.generation()) < Some(250) {
                a.clear();
            }
        }
        Graph { a, ptrs: BTreeMap::new() }
    }

    fn exec(&mut self, op: &Op, cx: &mut Cx) {
        let a = &op.a;
        match op.o.as_str() {
            "node" => {
                let h = op.r[0];
                let p = self.a.insert(DebugNode::new(vec![], Labels::<L>::node(h), vec![]));
                // without generations, pointers to the previous node become valid again
                cx.abstain = self.ptrs.values().any(|q| *q == p);
                self.ptrs.insert(h, p);
            }
            "src" => {
                let t = self.p(a[1]);
                let n = self.a.get_mut(self.ptrs[&a[0]]).unwrap();
                n.sources.push((t, Labels::<L>::edge(a[0], n.sources.len())));
            }
            "snk" => {
                let t = self.p(a[1]);
                let n = self.a.get_mut(self.ptrs[&a[0]]).unwrap();
                n.sinks.push((t, Labels::<L>::edge(a[0], n.sinks.len())));
            }
            "rem" => {
                self.a.remove(self.ptrs[&a[0]]).unwrap();
            }
            o => panic!("unknown operation {o}"),
        }
    }

    fn observe(&mut self, s: &Value, cx: &mut Cx) {
        let fails = s["fails"] == 1;
        let gone: Vec<P> = ints(&s["dangling"]).iter().map(|h| self.p(*h)).collect();
        match (render_to_svg(&self.a, true), fails) {
            (Ok(_), false) => (),
            (Ok(_), true) => cx.fail("dangling", "no error for an invalid pointer"),
            (Err(RenderError::InvalidPtr(p)), true) => {
                cx.check(gone.contains(&p), "dangling", || format!("the error is about {p:?}, invalid are {gone:?}"))
            }
            (Err(e), _) => cx.fail("dangling", format!("error {e:?}")),
        }
        for strict in [false, true] {
            if strict && fails {
                continue
            }
            let rg = match grid_process(&self.a, strict) {
                Ok(rg) => {
                    self.picture(&rg, s, cx);
                    Some(rg)
                }
                Err(e) => {
                    cx.fail("dangling", format!("error {e:?} of the grid"));
                    None
                }
            };
            match render_to_svg(&self.a, strict) {
                Ok(svg) => {
                    if let Some(rg) = rg.filter(|_| cx.divs.is_empty()) {
                        drawing(&svg, &rg, cx);
                    }
                    for h in ints(&s["live"]) {
                        for l in Labels::<L>::node(h).iter().take(1) {
                            let n = svg.matches(&format!(">{}<", escape(l))).count();
                            cx.eq("place", "times a node is written", n, 1);
                        }
                    }
                    let rects = svg.matches("<rect ").count() - 1;
                    let least = ints(&s["live"]).len() + gone.len();
                    cx.check(rects >= least, "place", || format!("{rects} boxes, there are {least} nodes"));
                    for t in ["text", "svg"] {
                        let open = svg.matches(&format!("<{t} ")).count();
                        cx.eq("place", "closed elements", svg.matches(&format!("</{t}>")).count(), open);
                    }
                }
                Err(e) => cx.fail("dangling", format!("error {e:?} of the picture")),
            }
            if rows(&s["arrows"]).len() <= 1 {
                self.file(strict, cx);
                self.links(strict, cx);
            }
        }
    }

    fn finish(self, _: &Value, _: &mut Cx) {}
}

fn main() {
    let args = Args::get();
    if args.n("wide", 0) == 1 {
        replay_main(&args, &[
            ("plain", run_line::<Graph<PD, 0>>),
            ("narrow", run_line::<Graph<PS, 1>>),
            ("nogen", run_line::<Graph<PNS, 2>>),
        ]);
        return
    }
    replay_main(&args, &[
        ("plain", run_line::<Graph<PD, 0>>),
        ("labels", run_line::<Graph<PM, 1>>),
        ("nogen", run_line::<Graph<PN, 0>>),
        ("empty", run_line::<Graph<PS, 2>>),
    ]);
}
