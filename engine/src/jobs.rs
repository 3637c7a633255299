//! Runs the interpreter on the entry points named in a job file and prints what it found as JSON.
use crate::dom::*;
use crate::interp::*;
use crate::mem::*;
use rustc_abi::{BackendRepr, Variants};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgs, Instance, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write;
use std::rc::Rc;

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jregs(regs: &[Reg], o: &mut String) {
    o.push('[');
    for (i, r) in regs.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        jreg(r, o);
    }
    o.push(']');
}
fn jreg(r: &Reg, o: &mut String) {
    o.push('[');
    for (k, (l, h)) in r.0.iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        let _ = write!(o, "[{},{}]", l, h);
    }
    o.push(']');
}
fn jval(v: &Val, o: &mut String) {
    match v {
        Val::U => o.push_str("{\"u\":1}"),
        Val::W(x) => {
            let _ = write!(o, "{{\"c\":{}}}", x);
        }
        Val::C(x, 0) => {
            let _ = write!(o, "{{\"c\":{}}}", x);
        }
        Val::C(x, p) => {
            let _ = write!(o, "{{\"ptr\":{},\"c\":{}}}", p, x);
        }
        Val::F(s, pw) => {
            let _ = write!(o, "{{\"f\":{},\"p\":[", s);
            for (k, p) in pw.0.iter().enumerate() {
                if k > 0 {
                    o.push(',');
                }
                if p.slope == 0 {
                    let _ = write!(o, "[{},{},{}]", p.lo, p.hi, p.base);
                } else {
                    let _ = write!(o, "[{},{},{},{}]", p.lo, p.hi, p.base, p.slope);
                }
            }
            o.push_str("]}");
        }
    }
}

/// All functions of the crate being analysed (the harness), by name.
pub fn local_fns(tcx: TyCtxt<'_>) -> HashMap<String, DefId> {
    let mut m = HashMap::new();
    for d in tcx.hir_body_owners() {
        if tcx.def_kind(d) == DefKind::Fn {
            let p = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d.to_def_id()));
            m.insert(p, d.to_def_id());
        }
    }
    m
}

fn parse_reg(s: &str) -> Reg {
    let n = |t: &str| -> u32 {
        if let Some(h) = t.strip_prefix("0x") {
            u32::from_str_radix(h, 16).unwrap()
        } else {
            t.parse().unwrap()
        }
    };
    Reg::new(
        s.split(',')
            .filter(|t| !t.is_empty())
            .map(|t| match t.split_once('-') {
                Some((a, b)) => (n(a), n(b)),
                None => (n(t), n(t)),
            })
            .collect(),
    )
}

struct Opts {
    doms: HashMap<usize, Reg>,
    lens: HashMap<usize, usize>,
}

enum Out {
    Val(Val),
    Str(Vec<Val>, u32),
    Tup(Vec<Out>),
}
fn jout(x: &Out, o: &mut String) {
    match x {
        Out::Val(v) => jval(v, o),
        Out::Str(v, el) => {
            let _ = write!(o, "{{\"el\":{},\"s\":[", el);
            for (i, v) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                jval(v, o);
            }
            o.push_str("]}");
        }
        Out::Tup(v) => {
            o.push('[');
            for (i, v) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                jout(v, o);
            }
            o.push(']');
        }
    }
}

/// A description of the return type: what the words mean.
fn jtype<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(a, _) if a.is_enum() => {
            let mut s = String::from("{\"enum\":{");
            for (i, (v, d)) in a.discriminants(tcx).enumerate() {
                if i > 0 {
                    s.push(',');
                }
                let _ = write!(s, "\"{}\":{}", d.val as i64, jstr(a.variant(v).name.as_str()));
            }
            s.push_str("}}");
            s
        }
        ty::Tuple(ts) => {
            if let Some(el) = seq_elem(t) {
                return jstr(&format!("[{}]", el));
            }
            let v: Vec<String> = ts.iter().map(|x| jtype(tcx, x)).collect();
            format!("[{}]", v.join(","))
        }
        _ => jstr(&t.to_string()),
    }
}

/// `(*const T, usize)`: a sequence
fn seq_elem<'tcx>(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
    if let ty::Tuple(ts) = t.kind() {
        if ts.len() == 2 && ts[1].is_usize() {
            if let ty::RawPtr(e, _) = ts[0].kind() {
                return Some(*e);
            }
        }
    }
    None
}

fn byte<'tcx>(it: &mut Interp<'tcx>, cell: &Cell, p: &Val, k: u64) -> Res<Val> {
    let q = it.op2(cell, Op::Add, 64, false, p, &Val::c(k))?;
    let x = it.load(cell, &q, 1)?;
    Ok(it.norm(cell, &x))
}

fn decode<'tcx>(it: &mut Interp<'tcx>, cell: &Cell, v: &V, ly: Ly<'tcx>) -> Res<Out> {
    if let Some(el) = seq_elem(ly.ty) {
        let el = it.layout(el)?;
        let (p, n) = Interp::fat(v)?;
        let n = match it.norm(cell, &n.unwrap_or(Val::U)) {
            Val::C(n, 0) => n,
            x => return it.split_by_value(cell, &x),
        };
        let mut sz = el.size.bytes();
        let mut n = n;
        if it.wide && sz == 1 {
            sz = 4;
            n /= 4;
        }
        let mut out = vec![];
        if !it.wide && el.ty.is_integral() && sz == 1 {
            // UTF-8: characters
            let mut k = 0;
            while k < n {
                let b0 = byte(it, cell, &p, k)?;
                let len = |x: u64| -> u64 {
                    match x {
                        0..=0x7f => 1,
                        0xc2..=0xdf => 2,
                        0xe0..=0xef => 3,
                        0xf0..=0xf4 => 4,
                        _ => 0,
                    }
                };
                let m = match &b0 {
                    Val::C(x, 0) => len(*x),
                    Val::F(s, pw) => {
                        let mut by: std::collections::BTreeMap<u64, Vec<(u32, u32)>> = Default::default();
                        for pc in &pw.0 {
                            if pc.prov != 0 {
                                return unsup("pointer in a text");
                            }
                            if pc.slope == 0 {
                                by.entry(len(pc.base)).or_default().push((pc.lo, pc.hi));
                            } else {
                                for x in pc.lo..=pc.hi {
                                    by.entry(len(pc.at(x))).or_default().push((x, x));
                                }
                            }
                        }
                        if by.len() > 1 {
                            return Err(Stop::Split(*s, by.into_values().map(Reg::new).collect()));
                        }
                        by.into_keys().next().unwrap_or(0)
                    }
                    _ => return unsup("undefined byte in a text"),
                };
                if m == 0 || k + m > n {
                    return unsup("text is not UTF-8");
                }
                let lead = match m {
                    1 => 0x7f,
                    2 => 0x1f,
                    3 => 0x0f,
                    _ => 0x07,
                };
                let mut v = it.op2(cell, Op::And, 32, false, &b0, &Val::c(lead))?;
                for j in 1..m {
                    let b = byte(it, cell, &p, k + j)?;
                    let top = it.op2(cell, Op::And, 8, false, &b, &Val::c(0xc0))?;
                    let ok = it.op2(cell, Op::Eq, 8, false, &top, &Val::c(0x80))?;
                    match it.norm(cell, &ok) {
                        Val::C(1, 0) => {}
                        _ => return unsup("text is not UTF-8"),
                    }
                    let low = it.op2(cell, Op::And, 32, false, &b, &Val::c(0x3f))?;
                    let hi = it.op2(cell, Op::Mul, 32, false, &v, &Val::c(64))?;
                    v = it.op2(cell, Op::Add, 32, false, &hi, &low)?;
                }
                out.push(it.norm(cell, &v));
                k += m;
            }
            return Ok(Out::Str(out, 4));
        }
        for k in 0..n {
            let q = it.op2(cell, Op::Add, 64, false, &p, &Val::c(k * sz))?;
            let x = it.load(cell, &q, sz as u32)?;
            out.push(it.norm(cell, &x));
        }
        return Ok(Out::Str(out, sz as u32));
    }
    match ly.ty.kind() {
        ty::Tuple(ts) => {
            let mut o = vec![];
            for i in 0..ts.len() {
                let (f, fl) = it.field_of(cell, v, ly, i)?;
                o.push(decode(it, cell, &f, fl)?);
            }
            Ok(Out::Tup(o))
        }
        ty::Adt(a, _) if a.is_enum() => {
            let mut c = cell.clone();
            let p = c.new_heap(ly.size.bytes().max(1));
            it.write(&mut c, &Val::C(0, p), ly, v)?;
            let d = it.read_discr(&c, &Pl { ptr: Val::C(0, p), meta: None, ly })?;
            Ok(Out::Val(it.norm(cell, &d)))
        }
        _ => {
            if ly.is_zst() {
                return Ok(Out::Val(Val::c(0)));
            }
            if let BackendRepr::Scalar(_) = ly.backend_repr {
                let x = Interp::sval(v)?;
                return Ok(Out::Val(it.norm(cell, &x)));
            }
            unsup(format!("return type {:?}", ly.ty))
        }
    }
}

pub fn run<'tcx>(tcx: TyCtxt<'tcx>, line: &str, end: std::time::Instant, out: &mut String) {
    let t0 = std::time::Instant::now();
    let mut it = Interp::new(tcx);
    it.deadline = end;
    let mut parts = line.split_whitespace();
    let entry = parts.next().unwrap();
    let mut name = entry.to_string();
    let mut opts = Opts { doms: HashMap::new(), lens: HashMap::new() };
    for kv in parts {
        let (k, v) = kv.split_once('=').unwrap_or((kv, "1"));
        match k {
            "name" => name = v.into(),
            "wide" => it.wide = v == "1",
            "trace" => it.trace = v == "1",
            "nosum" => it.no_summaries = v == "1",
            "budget" => it.budget = v.parse().unwrap(),
            "secs" => it.deadline = end.min(t0 + std::time::Duration::from_secs(v.parse().unwrap())),
            _ if k.starts_with("dom") => {
                opts.doms.insert(k[3..].parse().unwrap(), parse_reg(v));
            }
            _ if k.starts_with("len") => {
                opts.lens.insert(k[3..].parse().unwrap(), v.parse().unwrap());
            }
            _ => panic!("job option {}", k),
        }
    }
    let _ = write!(out, "{{\"entry\":{},\"name\":{}", jstr(entry), jstr(&name));
    let fns = local_fns(tcx);
    let Some(&d) = fns.get(entry) else {
        out.push_str(",\"error\":\"no such entry\"}");
        return;
    };
    let inst = Instance::mono(tcx, d);
    let _ = GenericArgs::identity_for_item(tcx, d);
    let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate_identity().skip_norm_wip());
    let mut cell = Cell::default();
    let mut args = vec![];
    let mut err = None;
    for (i, t) in sig.inputs().iter().enumerate() {
        let t = tcx.erase_and_anonymize_regions(*t);
        let is_str = matches!(t.kind(), ty::Ref(_, s, _) if s.is_str());
        let is_chars = matches!(t.kind(), ty::Ref(_, s, _) if matches!(s.kind(), ty::Slice(e) if e.is_char()));
        if is_str || is_chars {
            let n = *opts.lens.get(&i).unwrap_or(&1);
            if is_str && !it.wide {
                err = Some("string arguments need the wide model".to_string());
                break;
            }
            let p = cell.new_heap(4 * n as u64);
            for k in 0..n {
                let dom = opts.doms.get(&cell.regs.len()).cloned().unwrap_or_else(|| Reg::new(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]));
                let v = match dom.0.as_slice() {
                    _ => Val::F(cell.regs.len() as Sym, Rc::new(Pw::ident(&dom))),
                };
                cell.regs.push(dom);
                cell.alloc_mut(p).unwrap().put(4 * k as u32, 4, v);
            }
            let len = if is_str { 4 * n as u64 } else { n as u64 };
            args.push(V::B(Rc::new(vec![Slot { off: 0, size: 8, val: Val::C(0, p) }, Slot { off: 8, size: 8, val: Val::c(len) }])));
            continue;
        }
        let dom = match opts.doms.get(&cell.regs.len()) {
            Some(d) => d.clone(),
            None => {
                if t.is_char() {
                    Reg::new(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)])
                } else if t.is_bool() {
                    Reg::new(vec![(0, 1)])
                } else {
                    match t.kind() {
                        ty::Adt(a, _) if a.is_enum() => match it.layout(t).ok().map(|l| l.variants.clone()) {
                            Some(Variants::Multiple { .. }) => Reg::new(a.discriminants(tcx).map(|(_, d)| (d.val as u32, d.val as u32)).collect()),
                            _ => Reg::new(vec![(0, 0)]),
                        },
                        ty::Uint(ty::UintTy::U8) => Reg::new(vec![(0, 255)]),
                        _ => Reg::new(vec![(0, 0x10FFFF)]),
                    }
                }
            }
        };
        let ly = match it.layout(t) {
            Ok(l) => l,
            Err(_) => {
                err = Some(format!("layout of {}", t));
                break;
            }
        };
        if ly.is_zst() {
            args.push(V::zst());
            continue;
        }
        args.push(V::S(Val::F(cell.regs.len() as Sym, Rc::new(Pw::ident(&dom)))));
        cell.regs.push(dom);
    }
    if let Some(e) = err {
        let _ = write!(out, ",\"error\":{}}}", jstr(&e));
        return;
    }
    let _ = write!(out, ",\"domain\":");
    jregs(&cell.regs, out);
    let rt = tcx.erase_and_anonymize_regions(sig.output());
    let _ = write!(out, ",\"type\":{}", jtype(tcx, rt));
    let rl = match it.layout(rt) {
        Ok(l) => l,
        Err(_) => {
            out.push_str(",\"error\":\"return layout\"}");
            return;
        }
    };
    let results = if rt.is_never() { vec![] } else { it.run(inst, args, cell) };
    out.push_str(",\"cells\":[");
    let mut todo = results;
    let mut n = 0;
    while let Some((c, v)) = todo.pop() {
        match decode(&mut it, &c, &v, rl) {
            Ok(o) => {
                if n > 0 {
                    out.push_str(",\n");
                }
                n += 1;
                out.push_str("{\"regs\":");
                jregs(&c.regs, out);
                out.push_str(",\"out\":");
                jout(&o, out);
                out.push('}');
            }
            Err(Stop::Split(s, rs)) => {
                for q in rs {
                    let q = c.regs[s as usize].inter(&q);
                    if !q.is_empty() {
                        todo.push((c.with(s, q), v.clone()));
                    }
                }
            }
            Err(Stop::Unsup(m)) => it.give_up(&c, m),
            Err(Stop::Panic(m)) => it.panic(&c, m),
        }
    }
    out.push(']');
    for (k, v) in [("panics", &it.panics), ("undecided", &it.undecided)] {
        let _ = write!(out, ",\n\"{}\":[", k);
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                out.push_str(",\n");
            }
            if x.regs.len() > 1 && i >= 100 {
                // the rest is only counted
                let _ = write!(out, "{{\"more\":{}}}", v.len() - i);
                break;
            }
            out.push_str("{\"regs\":");
            jregs(&x.regs, out);
            let _ = write!(out, ",\"msg\":{},\"at\":{},\"stack\":[{}]}}", jstr(&x.msg), jstr(&x.at), x.stack.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
        }
        out.push(']');
    }
    let s = &it.stats;
    let _ = write!(
        out,
        ",\n\"stats\":{{\"steps\":{},\"cells\":{},\"splits\":{},\"merges\":{},\"calls\":{},\"loads\":{},\"branches\":{},\"summaries\":{},\"functions\":{},\"secs\":{:.2}}},\"local_functions\":[{}]}}",
        s.steps,
        s.cells,
        s.splits,
        s.merges,
        s.calls,
        s.loads,
        s.branches,
        s.summaries,
        s.functions.len(),
        t0.elapsed().as_secs_f64(),
        s.local_functions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
    );
    eprintln!("{}: {} cells, {} panics, {} undecided, {} steps, {:.2}s", name, n, it.panics.len(), it.undecided.len(), it.stats.steps, t0.elapsed().as_secs_f64());
    for u in it.undecided.iter().take(3) {
        eprintln!("   undecided: {} at {}", u.msg, u.at);
    }
}
