//! C07: update8/finalize8. Cases:
//!  [0, after, (kind, pre, len) x 8]        one update8 over lanes of these shapes, then observations
//!  [1, kinds, op, op, ...]                 histories mixing parallel and individual operations
use crate::bfs::Mode;
use crate::c::long;
use crate::ctx::{data, Check, Cx};
use crate::p::{build_min, neighbour, neighbours, pk, pk_state, rp, KKIND, KLEN, NP, PLAIN};
use blake2s_simd::{finalize8, update8, Hash, State};

pub struct C07;

pub const TBL: usize = 1400;
pub const TBL2: usize = 9_000;
pub const LONGEST: usize = 70_000;
pub fn off(i: usize) -> usize {
    20_000 + i * 5_000 + i * i
}

pub fn up8(st: &mut [State], ins: &[&[u8]; 8]) {
    let mut it = st.iter_mut();
    let mut n = || it.next().unwrap();
    update8(n(), n(), n(), n(), n(), n(), n(), n(), ins[0], ins[1], ins[2], ins[3], ins[4], ins[5], ins[6], ins[7]);
}
pub fn fin8(st: &mut [State]) -> [Hash; 8] {
    let mut it = st.iter_mut();
    let mut n = || it.next().unwrap();
    finalize8(n(), n(), n(), n(), n(), n(), n(), n())
}
/// The same with states assigned to the lanes in reverse.
fn up8r(st: &mut [State], ins: &[&[u8]; 8]) {
    let mut it = st.iter_mut().rev();
    let mut n = || it.next().unwrap();
    update8(n(), n(), n(), n(), n(), n(), n(), n(), ins[7], ins[6], ins[5], ins[4], ins[3], ins[2], ins[1], ins[0]);
}
fn fin8r(st: &mut [State]) -> [Hash; 8] {
    let mut it = st.iter_mut().rev();
    let mut n = || it.next().unwrap();
    let mut r = finalize8(n(), n(), n(), n(), n(), n(), n(), n());
    r.reverse();
    r
}

pub const DESC: &[[u64; 3]] = &[
    [0, 0, 0], [0, 0, 1], [0, 0, 64], [0, 0, 65], [0, 0, 128], [0, 0, 129], [0, 1, 63], [0, 1, 64], [0, 1, 191], [0, 64, 0], [0, 64, 1],
    [0, 64, 64], [0, 64, 65], [0, 63, 66], [1, 0, 0], [1, 0, 1], [1, 0, 65], [1, 0, 192], [2, 0, 129], [3, 5, 200], [4, 0, 64], [5, 0, 256],
    [6, 64, 128], [7, 1, 1], [8, 0, 129], [13, 64, 65], [0, 100, 320], [0, 0, 385],
];

pub fn perms8(f: &mut dyn FnMut(&[usize; 8]) -> bool) {
    // Heap's algorithm.
    let mut a = [0usize, 1, 2, 3, 4, 5, 6, 7];
    let mut c = [0usize; 8];
    if !f(&a) {
        return;
    }
    let mut i = 0;
    while i < 8 {
        if c[i] < i {
            if i % 2 == 0 {
                a.swap(0, i);
            } else {
                a.swap(c[i], i);
            }
            if !f(&a) {
                return;
            }
            c[i] += 1;
            i = 0;
        } else {
            c[i] = 0;
            i += 1;
        }
    }
}

/// History operations.
const SHAPES: [[usize; 8]; 7] = [
    [0; 8],
    [64; 8],
    [65; 8],
    [130; 8],
    [0, 20, 40, 60, 80, 100, 120, 140],
    [129, 129, 129, 129, 129, 0, 129, 129],
    [0, 0, 129, 0, 0, 0, 0, 0],
];
const NOPS: u64 = 27;
const KINDS: [[u64; 8]; 4] = [[0; 8], [0, 1, 2, 3, 4, 5, 6, 7], [8, 1, 10, 3, 12, 5, 14, 7], [1; 8]];

fn op_name(o: u64) -> String {
    match o {
        0..=6 => format!("update8{:?}", SHAPES[o as usize]),
        7 => "finalize8".into(),
        8 => "update8 reversed [130]".into(),
        9 => "update8 reversed staggered".into(),
        10 => "finalize8 reversed".into(),
        11..=19 => format!("update(lane {}, {})", [0, 3, 7][(o as usize - 11) / 3], [1, 64, 65][(o as usize - 11) % 3]),
        20..=22 => format!("finalize(lane {})", [0, 3, 7][o as usize - 20]),
        _ => format!("set_last_node(lane {}, {})", [0, 7][(o as usize - 23) / 2], (o - 23) % 2 == 1),
    }
}

impl C07 {
    fn lanes(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let after = c[1] & 3;
        // Lane streams: 0 different, 1 one and the same memory, 2 copies of the same bytes, 3 different bytes first, then the same memory.
        let share = c[1] >> 2;
        let copies: Vec<Vec<u8>> = if share == 2 { (0..8).map(|_| data()[off(0)..off(0) + TBL].to_vec()).collect() } else { vec![] };
        let o = |i: usize| if share == 0 { off(i) } else { off(0) };
        let at = |i: usize, from: usize, n: usize| -> &[u8] {
            if share == 2 {
                &copies[i][from..from + n]
            } else {
                &data()[o(i) + from..o(i) + from + n]
            }
        };
        let lane = |i: usize| (c[2 + 3 * i], c[3 + 3 * i] as usize, c[4 + 3 * i] as usize);
        let mut st: Vec<State> = cx.op("construct", || {
            (0..8)
                .map(|i| {
                    let (k, pre, _) = lane(i);
                    let mut s = pk_state(k);
                    s.update(if share == 3 { &data()[off(i)..off(i) + pre] } else { at(i, 0, pre) });
                    s
                })
                .collect()
        })?;
        let mut n = [0usize; 8];
        let mut ins: [&[u8]; 8] = [&[]; 8];
        for i in 0..8 {
            let (_, pre, len) = lane(i);
            ins[i] = at(i, pre, len);
            n[i] = pre + len;
        }
        cx.op("update8", || up8(&mut st, &ins))?;
        if after == 1 {
            self.each(&mut st, &n, c, cx, "finalize after update8")?;
        }
        if after == 2 {
            // A second update8 in the same shapes.
            for i in 0..8 {
                let len = ins[i].len();
                ins[i] = at(i, n[i], len);
                n[i] += len;
            }
            cx.op("second update8", || up8(&mut st, &ins))?;
        }
        let h = cx.op("finalize8", || fin8(&mut st))?;
        for i in 0..8 {
            let w = self.want(c, i, n[i], cx);
            cx.eq(&format!("finalize8 lane {}", i), h[i].as_bytes(), &w)?;
        }
        // The states stay usable: individual finalization, then more input.
        self.each(&mut st, &n, c, cx, "finalize after finalize8")?;
        for i in 0..8 {
            cx.op("update", || {
                st[i].update(at(i, n[i], 65));
            })?;
            n[i] += 65;
        }
        self.each(&mut st, &n, c, cx, "finalize after a further update")
    }

    /// Eight states alike, with the same input in the same memory (odd lengths: in copies), but for one thing in one lane.
    fn twins(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let (lane, f, x, pre, len) = (c[1] as usize, c[2], c[3], c[4] as usize, c[5] as usize);
        let mut base = PLAIN;
        if c[6] == 1 {
            base[KLEN] = 30;
        }
        let mut ps = [base; 8];
        if f < NP as u64 {
            if base[KLEN] == 0 && (f == KLEN as u64 || f == KKIND as u64) && x > 16 {
                return Ok(());
            }
            ps[lane] = neighbour(&base, f, x);
            if ps[lane][KLEN] > 32 {
                ps[lane][KLEN] = 32;
            }
        }
        let mut rs: Vec<_> = ps.iter().map(|p| rp(p)).collect();
        let d = &data()[off(0)..];
        let mut before: Vec<Vec<u8>> = (0..8).map(|_| d[..pre].to_vec()).collect();
        let mut input: Vec<Vec<u8>> = (0..8).map(|_| d[pre..pre + len].to_vec()).collect();
        match f {
            20 => before[lane][x as usize] ^= 0x41,
            23 => input[lane][x as usize] ^= 0x41,
            24 => {
                before[lane].pop();
            }
            25 => {
                input[lane].pop();
            }
            _ => {}
        }
        let mut st: Vec<State> = cx.op("construct", || {
            (0..8)
                .map(|i| {
                    let mut s = build_min(&rs[i]).to_state();
                    s.update(&before[i]);
                    if f == 21 && i == lane {
                        s.set_last_node(true);
                    }
                    if f == 22 && i == lane {
                        crate::bm::force_portable(&mut s);
                    }
                    s
                })
                .collect()
        })?;
        if f == 21 {
            rs[lane].last = true;
        }
        let copies = len % 2 == 1 || f == 23 || f == 25;
        let ins: [&[u8]; 8] = std::array::from_fn(|i| if copies { &input[i][..] } else { &d[pre..pre + len] });
        let want: Vec<Vec<u8>> = (0..8).map(|i| rs[i].hash(&[&before[i][..], ins[i]].concat())).collect();
        cx.op("update8", || up8(&mut st, &ins))?;
        let h = cx.op("finalize8", || fin8(&mut st))?;
        for i in 0..8 {
            cx.eq(&format!("finalize8 lane {}", i), h[i].as_bytes(), &want[i])?;
            let g = cx.op("finalize", || st[i].finalize())?;
            cx.eq(&format!("finalize lane {}", i), g.as_bytes(), &want[i])?;
        }
        Ok(())
    }

    fn want(&self, c: &[u64], i: usize, n: usize, cx: &mut Cx) -> Vec<u8> {
        let p = pk(c[2 + 3 * i]);
        match c[1] >> 2 {
            0 => cx.prefix(&p, off(i), if n <= TBL { TBL } else if n <= TBL2 { TBL2 } else { LONGEST }, n),
            3 => {
                let pre = c[3 + 3 * i] as usize;
                let mut m = data()[off(i)..off(i) + pre].to_vec();
                m.extend_from_slice(&data()[off(0) + pre..off(0) + n]);
                p.hash(&m)
            }
            _ => cx.prefix(&p, off(0), TBL, n),
        }
    }

    fn each(&self, st: &mut [State], n: &[usize; 8], c: &[u64], cx: &mut Cx, what: &str) -> Result<(), String> {
        for i in 0..8 {
            let h = cx.op("finalize", || st[i].finalize())?;
            let w = self.want(c, i, n[i], cx);
            if h.as_bytes() != &w[..] {
                return cx.eq(&format!("{}, lane {}", what, i), h.as_bytes(), &w);
            }
            cx.traces += 1;
        }
        Ok(())
    }

    fn history(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let d = data();
        let kinds = KINDS[c[1] as usize];
        let mut st: Vec<State> = cx.op("construct", || (0..8).map(|i| pk_state(kinds[i])).collect())?;
        let mut n = [0usize; 8];
        let mut rp: Vec<_> = (0..8).map(|i| pk(kinds[i])).collect();
        for &o in c[2..].iter().chain([7].iter()) {
            match o {
                0..=6 | 8 | 9 => {
                    let sh = match o {
                        8 => SHAPES[3],
                        9 => SHAPES[4],
                        _ => SHAPES[o as usize],
                    };
                    let mut ins: [&[u8]; 8] = [&[]; 8];
                    for i in 0..8 {
                        ins[i] = &d[off(i) + n[i]..off(i) + n[i] + sh[i]];
                        n[i] += sh[i];
                    }
                    cx.op("update8", || if o < 7 { up8(&mut st, &ins) } else { up8r(&mut st, &ins) })?;
                }
                7 | 10 => {
                    let h = cx.op("finalize8", || if o == 7 { fin8(&mut st) } else { fin8r(&mut st) })?;
                    for i in 0..8 {
                        let w = cx.prefix(&rp[i], off(i), TBL, n[i]);
                        cx.eq(&format!("finalize8 lane {}", i), h[i].as_bytes(), &w)?;
                    }
                }
                11..=19 => {
                    let (i, len) = ([0, 3, 7][(o as usize - 11) / 3], [1, 64, 65][(o as usize - 11) % 3]);
                    cx.op("update", || {
                        st[i].update(&d[off(i) + n[i]..off(i) + n[i] + len]);
                    })?;
                    n[i] += len;
                }
                20..=22 => {
                    let i = [0, 3, 7][o as usize - 20];
                    let h = cx.op("finalize", || st[i].finalize())?;
                    let w = cx.prefix(&rp[i], off(i), TBL, n[i]);
                    cx.eq("finalize", h.as_bytes(), &w)?;
                }
                _ => {
                    let (i, b) = ([0, 7][(o as usize - 23) / 2], (o - 23) % 2 == 1);
                    cx.op("set_last_node", || {
                        st[i].set_last_node(b);
                    })?;
                    rp[i].last = b;
                }
            }
        }
        for i in 0..8 {
            let h = cx.op("finalize", || st[i].finalize())?;
            let w = cx.prefix(&rp[i], off(i), TBL, n[i]);
            cx.eq("final finalize", h.as_bytes(), &w)?;
        }
        Ok(())
    }
}

/// All 8-lane assignments with at most two values from `vals`, all with <= dev deviations from each base, all permutations of eight.
pub fn lane_shapes(vals: &[u64], bases: &[usize], th: bool, emit: &mut dyn FnMut(&[u64; 8]) -> bool) {
    for (a, &x) in vals.iter().enumerate() {
        for &y in &vals[..a] {
            for m in 0..256u32 {
                let mut l = [x; 8];
                for i in 0..8 {
                    if m >> i & 1 == 1 {
                        l[i] = y;
                    }
                }
                if !emit(&l) {
                    return;
                }
            }
        }
    }
    for &b in bases {
        for i in 0..8 {
            for j in 0..i {
                for &x in vals {
                    for &y in vals {
                        let mut l = [vals[b]; 8];
                        l[i] = x;
                        l[j] = y;
                        if !emit(&l) {
                            return;
                        }
                        if th {
                            for k in 0..j {
                                for &z in vals.iter().step_by(3) {
                                    l[k] = z;
                                    if !emit(&l) {
                                        return;
                                    }
                                }
                                l[k] = vals[b];
                            }
                        }
                    }
                }
            }
        }
    }
}

impl Check for C07 {
    fn long(&self) -> (&'static [u64], Mode) {
        (&[long::UP8, long::MANY8], Mode::Digest)
    }
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        let lanes = |after: u64, l: &[u64; 8], emit: &mut dyn FnMut(&[u64]) -> bool| {
            let mut c = [0u64; 26];
            c[1] = after;
            for i in 0..8 {
                c[2 + 3 * i..5 + 3 * i].copy_from_slice(&DESC[l[i] as usize]);
            }
            emit(&c)
        };
        // Uniform shapes, every prefix length and input length.
        for k in 0..if th { 16 } else { 2 } {
            for pre in 0..=130 {
                for len in 0..=if th { 330 } else { 260 } {
                    for after in 0..3 {
                        if k > 0 && after == 2 {
                            continue;
                        }
                        let mut c = vec![0, after];
                        for _ in 0..8 {
                            c.extend_from_slice(&[k, pre, len]);
                        }
                        if !emit(&c) {
                            return;
                        }
                    }
                }
            }
        }
        // Long inputs: all of one length, and one lane shorter by some blocks.
        for n in 1300..=if th { 8700 } else { 4300 } {
            for less in [0, 1, 64 * (n / 8 % 9 + 1)] {
                let mut c = vec![0, 1];
                for i in 0..8 {
                    c.extend_from_slice(&[0, [0, 1, 64, 100][n as usize % 4], if i == n % 8 { n - less } else { n }]);
                }
                if !emit(&c) {
                    return;
                }
            }
        }
        let vals: Vec<u64> = (0..DESC.len() as u64).collect();
        lane_shapes(&vals, if th { &[0, 5, 17, 19, 26] } else { &[5, 17] }, th, &mut |l| lanes(0, l, emit) && (!th || (lanes(1, l, emit) && lanes(2, l, emit))));
        // Lanes that read the same memory, or equal bytes.
        for k in 0..if th { 16 } else { 4 } {
            for pre in if th { (0..=130).collect() } else { vec![0, 1, 9, 31, 32, 63, 64, 65, 100, 128, 129] } {
                for len in if th { (0..=330).collect() } else { vec![0, 1, 32, 55, 63, 64, 65, 128, 129, 130, 200, 256, 257] } {
                    for mixed in 0..2 {
                        let mut c = vec![0, 4 * 3 + (pre + len) % 3];
                        for i in 0..8 {
                            c.extend_from_slice(&[if mixed == 1 { (k + i) % 16 } else { k }, pre, len]);
                        }
                        if !emit(&c) {
                            return;
                        }
                    }
                }
            }
        }
        let few: Vec<u64> = if th { vals.clone() } else { vec![0, 3, 4, 5, 13, 16, 17, 18, 21, 26] };
        lane_shapes(&few, &[], th, &mut |l| lanes(4, l, emit) && lanes(8 + 2, l, emit) && (!th || (lanes(5, l, emit) && lanes(6, l, emit) && lanes(8, l, emit) && lanes(9, l, emit))));
        perms8(&mut |a| {
            let mut l = [0u64; 8];
            for i in 0..8 {
                l[i] = [19, 26, 17, 5, 21, 18, 13, 25][a[i]];
            }
            lanes(2, &l, emit)
        });
        for n in (8701..LONGEST as u64 - 800).filter(|n| n % 64 == 0 || n % 1024 == 1 || n % 1024 == 1023) {
            for less in [0, 64 * (n / 64 % 9), 64] {
                let mut c = vec![0, 1];
                for i in 0..8 {
                    c.extend_from_slice(&[0, [0, 1, 64, 100][n as usize / 64 % 4], if i == n / 64 % 8 { n - less } else { n }]);
                }
                if !emit(&c) {
                    return;
                }
            }
        }
        // States that differ in one thing.
        for lane in 0..8 {
            let mut whats: Vec<(u64, u64)> = neighbours(true);
            whats.extend([(20, 0), (20, 31), (20, 63), (20, 64), (20, 127), (21, 0), (22, 0), (23, 0), (23, 20), (23, 63), (23, 64), (23, 127), (24, 0), (25, 0)]);
            for (f, x) in whats {
                for pre in [0, 1, 64, 65, 128] {
                    for len in [0, 1, 63, 64, 65, 128, 129, 200] {
                        for base in 0..2 {
                            if (f != 20 || x < pre) && (f != 23 || x < len) && !emit(&[2, lane, f, x, pre, len, base]) {
                                return;
                            }
                        }
                    }
                }
            }
        }
        // Histories.
        for k in 0..KINDS.len() as u64 {
            let depth = if th { 4 } else { 3 };
            let mut idx = vec![0u64];
            'o: loop {
                let mut c = vec![1, k];
                c.extend_from_slice(&idx);
                if !emit(&c) {
                    return;
                }
                if idx.len() < depth {
                    idx.push(0);
                    continue;
                }
                loop {
                    match idx.pop() {
                        None => break 'o,
                        Some(x) if x + 1 < NOPS => {
                            idx.push(x + 1);
                            break;
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        if c[0] == 2 {
            self.twins(c, cx)
        } else if c[0] == 0 {
            self.lanes(c, cx)
        } else {
            self.history(c, cx)
        }
    }
    fn describe(&self, c: &[u64]) -> String {
        if c[0] == 2 {
            let what = match c[2] {
                20 => format!("byte {} absorbed before", c[3]),
                21 => "set_last_node(true)".to_string(),
                22 => "the portable implementation".to_string(),
                23 => format!("byte {} of the input", c[3]),
                24 => "one byte fewer before".to_string(),
                25 => "one byte fewer of input".to_string(),
                f => format!("{} changed by {:#x}", crate::p::FIELD[f as usize], c[3]),
            };
            format!("eight {} states alike after {} bytes and given {} equal bytes, but lane {} with another {}", ["unkeyed", "keyed"][c[6] as usize], c[4], c[5], c[1], what)
        } else if c[0] == 0 {
            format!(
                "lanes (kind,before,update8) {:?}{} then {}",
                c[2..].chunks(3).collect::<Vec<_>>(),
                ["", ", all reading the same memory", ", all with equal bytes", ", different bytes, then all reading the same memory"][c[1] as usize >> 2],
                ["finalize8", "finalize each", "update8 again"][c[1] as usize & 3]
            )
        } else {
            format!("kinds {:?}: {}", KINDS[c[1] as usize], c[2..].iter().map(|&o| op_name(o)).collect::<Vec<_>>().join(", "))
        }
    }
}
