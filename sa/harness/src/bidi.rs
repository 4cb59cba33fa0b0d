//! The Bidirectional Algorithm on short texts, whatever the classes of the characters are.
use crate::lazy;
use unic::bidi::level::Level;
use unic::bidi::{BidiClass as B, BidiInfo, ParagraphInfo};

/// characters of every length
const CHARS: [char; 5] = ['a', '\u{e9}', '\u{20ac}', '\u{1f600}', 'b'];

fn level(n: u8) -> Level {
    match Level::new(n) {
        Ok(l) => l,
        Err(_) => unreachable!(),
    }
}
/// removed by rule X9
fn removed(b: B) -> bool {
    matches!(b, B::RightToLeftEmbedding | B::LeftToRightEmbedding | B::RightToLeftOverride | B::LeftToRightOverride | B::PopDirectionalFormat | B::BoundaryNeutral)
}
fn separator(b: B) -> bool { matches!(b, B::ParagraphSeparator | B::SegmentSeparator) }
fn space(b: B) -> bool { matches!(b, B::WhiteSpace | B::FirstStrongIsolate | B::LeftToRightIsolate | B::RightToLeftIsolate | B::PopDirectionalIsolate) }
/// a level among `base` and the `n - 1` above
fn pick(base: u8, n: u8) -> u8 {
    let mut k = 1;
    while k < n {
        if lazy::choice() {
            return base + k - 1;
        }
        k += 1;
    }
    base + n - 1
}
/// the lines of a text of `n` characters with these classes and levels, from every start to every end
fn lines(n: usize, classes: &[B], levels: &[u8], base: u8, whole: bool) -> bool {
    lazy::tune(0, 99);
    let mut text = String::new();
    let mut cs = Vec::new();
    let mut ls = Vec::new();
    let mut at = [0usize; 6];
    let mut i = 0;
    while i < n {
        text.push(CHARS[i]);
        let mut k = 0;
        while k < CHARS[i].len_utf8() {
            cs.push(classes[i]);
            ls.push(level(levels[i]));
            k += 1;
        }
        at[i + 1] = at[i] + CHARS[i].len_utf8();
        i += 1;
    }
    let info = BidiInfo { text: &text, original_classes: cs, levels: ls, paragraphs: Vec::new() };
    let para = ParagraphInfo { range: 0..at[n], level: level(base) };
    let mut a = 0;
    while a <= n {
        let mut b = a;
        while b <= n {
            if (whole == (b == n && a == 0)) && !line(&info, &para, n, &at, a, b, classes, levels) {
                return false;
            }
            b += 1;
        }
        a += 1;
    }
    true
}
fn line(info: &BidiInfo, para: &ParagraphInfo, n: usize, at: &[usize], a: usize, b: usize, classes: &[B], levels: &[u8]) -> bool {
    let (got, runs) = info.visual_runs(para, at[a]..at[b]);
    if got.len() != at[n] {
        return false;
    }
    // L1
    let mut l = [0u8; 6];
    let mut end = true;
    let mut i = n;
    while i > 0 {
        i -= 1;
        l[i] = levels[i];
        let mut free = false;
        if i >= a && i < b {
            let c = classes[i];
            end = separator(c) || end && (space(c) || removed(c));
            if end {
                l[i] = para.level.number();
            }
            free = removed(c);
        }
        let mut k = at[i];
        if free {
            l[i] = got[k].number();
        }
        while k < at[i + 1] {
            if got[k].number() != l[i] {
                return false;
            }
            k += 1;
        }
    }
    // L2, character by character
    let mut order = [0usize; 6];
    let mut top = 0;
    i = a;
    while i < b {
        order[i] = i;
        if l[i] > top {
            top = l[i];
        }
        i += 1;
    }
    let mut low = 127;
    i = a;
    while i < b {
        let odd = l[i] | 1;
        if odd < low {
            low = odd;
        }
        i += 1;
    }
    while top >= low {
        i = a;
        while i < b {
            let mut j = i;
            while j < b && l[order[j]] >= top {
                j += 1;
            }
            let (mut x, mut y) = (i, j);
            while x + 1 < y {
                y -= 1;
                let t = order[x];
                order[x] = order[y];
                order[y] = t;
                x += 1;
            }
            i = if j > i { j } else { i + 1 };
        }
        top -= 1;
    }
    // the runs say the same
    let mut text = String::new();
    let mut r = 0;
    let mut k = a;
    while r < runs.len() {
        let (from, to) = (runs[r].start, runs[r].end);
        r += 1;
        if from == to {
            if a == b && from == at[a] {
                continue;
            }
            return false;
        }
        let (mut x, mut y) = (a, a);
        while at[x] < from {
            x += 1;
        }
        while at[y] < to {
            y += 1;
        }
        if at[x] != from || at[y] != to || x >= y || y > b || y - x > b - k {
            return false;
        }
        // maximal, of one level
        if x > a && l[x - 1] == l[x] || y < b && l[y] == l[x] {
            return false;
        }
        i = x;
        while i < y {
            let want = if l[x] % 2 == 1 { x + y - 1 - i } else { i };
            if l[i] != l[x] || order[k] != want {
                return false;
            }
            text.push(CHARS[want]);
            k += 1;
            i += 1;
        }
    }
    if k != b {
        return false;
    }
    let shown = info.reorder_line(para, at[a]..at[b]);
    let mut it = shown.chars();
    for c in text.chars() {
        if it.next() != Some(c) {
            return false;
        }
    }
    it.next().is_none()
}
/// every combination of classes and levels
pub fn lines_2(c: [B; 2]) -> bool {
    let base = pick(0, 2);
    lines(2, &c, &[base + pick(0, 3), base + pick(0, 3)], base, false)
}
pub fn whole_2(c: [B; 2]) -> bool {
    let base = pick(0, 2);
    lines(2, &c, &[base + pick(0, 3), base + pick(0, 3)], base, true)
}
pub fn lines_3(c: [B; 3]) -> bool { lines(3, &c, &[pick(0, 3), pick(0, 3), pick(0, 3)], 0, false) }
pub fn whole_3(c: [B; 3]) -> bool { lines(3, &c, &[pick(0, 3), pick(0, 3), pick(0, 3)], 0, true) }
/// L1 on longer lines
pub fn classes_4(c: [B; 4]) -> bool { lines(4, &c, &[2, 2, 3, 1], 0, false) }
/// L2 on longer lines, also at the highest levels
pub fn levels_5() -> bool { lines(5, &[B::LeftToRight; 5], &[pick(0, 4), pick(0, 4), pick(0, 4), pick(0, 4), pick(0, 4)], 0, true) }
pub fn levels_4() -> bool { lines(4, &[B::LeftToRight; 4], &[pick(0, 4), pick(0, 4), pick(0, 4), pick(0, 4)], 0, false) }
pub fn levels_top() -> bool { lines(3, &[B::LeftToRight; 3], &[pick(123, 4), pick(123, 4), pick(123, 4)], 0, false) }
pub fn classes_4w(c: [B; 4]) -> bool { lines(4, &c, &[2, 2, 3, 1], 0, true) }

// ---- the levels, from P1 to I2 (N0 aside: brackets are not paired)
const N: usize = 6;
fn initiator(b: B) -> bool { matches!(b, B::FirstStrongIsolate | B::LeftToRightIsolate | B::RightToLeftIsolate) }
/// BD9: the PDI that ends the isolate, or the end of the paragraph
fn matching(c: &[B], from: usize, end: usize) -> usize {
    let mut depth = 0;
    let mut i = from;
    while i < end {
        if initiator(c[i]) {
            depth += 1;
        } else if c[i] == B::PopDirectionalIsolate {
            depth -= 1;
            if depth == 0 {
                return i;
            }
        }
        i += 1;
    }
    end
}
/// P2: the class of the first strong character, isolates skipped
fn first_strong(c: &[B], from: usize, end: usize) -> Option<B> {
    let mut i = from;
    while i < end {
        let b = c[i];
        if initiator(b) {
            i = matching(c, i, end);
            if i == end {
                return None;
            }
        } else if matches!(b, B::LeftToRight | B::RightToLeft | B::ArabicLetter) {
            return Some(b);
        }
        i += 1;
    }
    None
}
struct Entry {
    level: u8,
    over: Option<B>,
    isolate: bool,
}
fn odd(n: u8) -> B {
    if n % 2 == 1 {
        B::RightToLeft
    } else {
        B::LeftToRight
    }
}
/// X1 to I2 for one paragraph; `c` are the classes
fn resolved(c: &[B], from: usize, end: usize, para: u8, l: &mut [u8; N]) {
    let mut t = [B::BoundaryNeutral; N];
    // X1-X8
    let mut stack: Vec<Entry> = Vec::new();
    stack.push(Entry { level: para, over: None, isolate: false });
    let (mut over_iso, mut over_emb, mut valid) = (0, 0, 0);
    let mut i = from;
    while i < end {
        let b = c[i];
        t[i] = b;
        let top = stack.len() - 1;
        match b {
            B::RightToLeftEmbedding | B::LeftToRightEmbedding | B::RightToLeftOverride | B::LeftToRightOverride => {
                let r = matches!(b, B::RightToLeftEmbedding | B::RightToLeftOverride);
                let new = if r { (stack[top].level + 1) | 1 } else { (stack[top].level + 2) & !1 };
                if new <= 125 && over_iso == 0 && over_emb == 0 {
                    let over = match b {
                        B::RightToLeftOverride => Some(B::RightToLeft),
                        B::LeftToRightOverride => Some(B::LeftToRight),
                        _ => None,
                    };
                    stack.push(Entry { level: new, over, isolate: false });
                } else if over_iso == 0 {
                    over_emb += 1;
                }
            }
            B::FirstStrongIsolate | B::LeftToRightIsolate | B::RightToLeftIsolate => {
                l[i] = stack[top].level;
                if let Some(o) = stack[top].over {
                    t[i] = o;
                }
                let r = match b {
                    B::FirstStrongIsolate => matches!(first_strong(c, i + 1, matching(c, i, end)), Some(B::RightToLeft) | Some(B::ArabicLetter)),
                    b => b == B::RightToLeftIsolate,
                };
                let new = if r { (stack[top].level + 1) | 1 } else { (stack[top].level + 2) & !1 };
                if new <= 125 && over_iso == 0 && over_emb == 0 {
                    valid += 1;
                    stack.push(Entry { level: new, over: None, isolate: true });
                } else {
                    over_iso += 1;
                }
            }
            B::PopDirectionalIsolate => {
                if over_iso > 0 {
                    over_iso -= 1;
                } else if valid > 0 {
                    over_emb = 0;
                    while let Some(e) = stack.pop() {
                        if e.isolate {
                            break;
                        }
                    }
                    valid -= 1;
                }
                let top = stack.len() - 1;
                l[i] = stack[top].level;
                if let Some(o) = stack[top].over {
                    t[i] = o;
                }
            }
            B::PopDirectionalFormat => {
                if over_iso > 0 {
                } else if over_emb > 0 {
                    over_emb -= 1;
                } else if !stack[top].isolate && stack.len() >= 2 {
                    stack.pop();
                }
            }
            B::BoundaryNeutral => {}
            B::ParagraphSeparator => l[i] = para,
            _ => {
                l[i] = stack[top].level;
                if let Some(o) = stack[top].over {
                    t[i] = o;
                }
            }
        }
        i += 1;
    }
    // X9, X10: from each first character of a sequence
    let mut done = [false; N];
    i = from;
    while i < end {
        if !removed(c[i]) && !done[i] {
            sequence(c, i, from, end, para, l, &mut t, &mut done);
        }
        i += 1;
    }
    // I1, I2
    i = from;
    while i < end {
        if !removed(c[i]) {
            l[i] += match (l[i] % 2, t[i]) {
                (0, B::RightToLeft) => 1,
                (0, B::ArabicNumber) | (0, B::EuropeanNumber) => 2,
                (1, B::LeftToRight) | (1, B::ArabicNumber) | (1, B::EuropeanNumber) => 1,
                _ => 0,
            };
        }
        i += 1;
    }
}
fn after(c: &[B], i: usize, end: usize) -> usize {
    let mut i = i + 1;
    while i < end && removed(c[i]) {
        i += 1;
    }
    i
}
fn sequence(c: &[B], first: usize, from: usize, end: usize, para: u8, l: &[u8; N], t: &mut [B; N], done: &mut [bool; N]) {
    let mut q = [0usize; N];
    let mut n = 0;
    let mut i = first;
    let e = l[first];
    // BD13
    let eos;
    loop {
        q[n] = i;
        n += 1;
        done[i] = true;
        let next = after(c, i, end);
        // the same level run
        if next < end && l[next] == e {
            i = next;
            continue;
        }
        if initiator(c[i]) {
            let m = matching(c, i, end);
            if m < end {
                i = m;
                continue;
            }
            eos = para;
        } else {
            eos = if next < end { l[next] } else { para };
        }
        break;
    }
    let mut before = para;
    i = from;
    while i < first {
        if !removed(c[i]) {
            before = l[i];
        }
        i += 1;
    }
    let sos = odd(if before > e { before } else { e });
    let eos = odd(if eos > e { eos } else { e });
    // W1
    let mut prev = sos;
    let mut k = 0;
    while k < n {
        let x = q[k];
        if t[x] == B::NonspacingMark {
            t[x] = match prev {
                B::FirstStrongIsolate | B::LeftToRightIsolate | B::RightToLeftIsolate | B::PopDirectionalIsolate => B::OtherNeutral,
                p => p,
            };
        }
        prev = t[x];
        k += 1;
    }
    // W2
    let mut strong = sos;
    k = 0;
    while k < n {
        let x = q[k];
        match t[x] {
            B::EuropeanNumber if strong == B::ArabicLetter => t[x] = B::ArabicNumber,
            B::LeftToRight | B::RightToLeft | B::ArabicLetter => strong = t[x],
            _ => {}
        }
        k += 1;
    }
    // W3
    k = 0;
    while k < n {
        if t[q[k]] == B::ArabicLetter {
            t[q[k]] = B::RightToLeft;
        }
        k += 1;
    }
    // W4
    k = 1;
    while k + 1 < n {
        let (p, x, y) = (t[q[k - 1]], t[q[k]], t[q[k + 1]]);
        if p == y && (p == B::EuropeanNumber && (x == B::EuropeanSeparator || x == B::CommonSeparator) || p == B::ArabicNumber && x == B::CommonSeparator) {
            t[q[k]] = p;
        }
        k += 1;
    }
    // W5
    k = 0;
    while k < n {
        if t[q[k]] == B::EuropeanNumber {
            let mut j = k;
            while j > 0 && t[q[j - 1]] == B::EuropeanTerminator {
                j -= 1;
                t[q[j]] = B::EuropeanNumber;
            }
            while k + 1 < n && t[q[k + 1]] == B::EuropeanTerminator {
                k += 1;
                t[q[k]] = B::EuropeanNumber;
            }
        }
        k += 1;
    }
    // W6, W7
    strong = sos;
    k = 0;
    while k < n {
        let x = q[k];
        match t[x] {
            B::EuropeanSeparator | B::EuropeanTerminator | B::CommonSeparator => t[x] = B::OtherNeutral,
            B::EuropeanNumber if strong == B::LeftToRight => t[x] = B::LeftToRight,
            B::LeftToRight | B::RightToLeft => strong = t[x],
            _ => {}
        }
        k += 1;
    }
    // N1, N2
    k = 0;
    while k < n {
        let mut j = k;
        while j < n && neutral(t[q[j]]) {
            j += 1;
        }
        if j > k {
            let left = if k == 0 { sos } else { side(t[q[k - 1]]) };
            let right = if j == n { eos } else { side(t[q[j]]) };
            let to = if left == right { left } else { odd(e) };
            while k < j {
                t[q[k]] = to;
                k += 1;
            }
        }
        k += 1;
    }
}
fn neutral(b: B) -> bool { separator(b) || space(b) || b == B::OtherNeutral }
fn side(b: B) -> B {
    if b == B::LeftToRight {
        b
    } else {
        B::RightToLeft
    }
}
struct Want<'a> {
    n: usize,
    text: &'a str,
    c: [B; N],
    at: [usize; N + 1],
}
/// characters of `len` bytes, none of whose classes are known
fn unknown(text: &mut String, n: usize, len: usize, keep: fn(B) -> bool) -> Option<([B; N], [usize; N + 1])> {
    lazy::tune(0, 99);
    lazy::classes();
    let mut c = [B::BoundaryNeutral; N];
    let mut at = [0; N + 1];
    let set: [char; N] = match len {
        1 => ['a', 'b', 'c', 'd', 'e', 'f'],
        2 => ['\u{80}', '\u{81}', '\u{82}', '\u{83}', '\u{84}', '\u{85}'],
        3 => ['\u{800}', '\u{801}', '\u{802}', '\u{803}', '\u{804}', '\u{805}'],
        _ => ['\u{10000}', '\u{10001}', '\u{10002}', '\u{10003}', '\u{10004}', '\u{10005}'],
    };
    let mut i = 0;
    while i < n {
        text.push(set[i]);
        c[i] = B::of(set[i]);
        if !keep(c[i]) {
            return None;
        }
        at[i + 1] = at[i] + len;
        i += 1;
    }
    Some((c, at))
}
fn all(_: B) -> bool { true }
fn compare(w: &Want, default: Option<u8>, levels: bool) -> bool {
    let info = BidiInfo::new(w.text, default.map(level));
    let n = w.n;
    if info.original_classes.len() != w.at[n] || info.levels.len() != w.at[n] {
        return false;
    }
    let mut want = [0u8; N];
    let (mut from, mut p) = (0, 0);
    while from < n {
        let mut end = from;
        while end < n && w.c[end] != B::ParagraphSeparator {
            end += 1;
        }
        if end < n {
            end += 1;
        }
        // P2, P3
        let para = match default {
            Some(d) => d,
            None => matches!(first_strong(&w.c, from, end), Some(B::RightToLeft) | Some(B::ArabicLetter)) as u8,
        };
        if p >= info.paragraphs.len() {
            return false;
        }
        let got = &info.paragraphs[p];
        if got.range.start != w.at[from] || got.range.end != w.at[end] || got.level.number() != para {
            return false;
        }
        p += 1;
        let mut i = from;
        while !levels && i < end {
            // X5c
            let b = if w.c[i] != B::FirstStrongIsolate {
                w.c[i]
            } else {
                match first_strong(&w.c, i + 1, matching(&w.c, i, end)) {
                    Some(B::LeftToRight) => B::LeftToRightIsolate,
                    Some(_) => B::RightToLeftIsolate,
                    None => B::FirstStrongIsolate,
                }
            };
            let mut k = w.at[i];
            while k < w.at[i + 1] {
                if info.original_classes[k] != b {
                    return false;
                }
                k += 1;
            }
            i += 1;
        }
        if levels {
            resolved(&w.c, from, end, para, &mut want);
            i = from;
            while i < end {
                let mut k = w.at[i];
                while k < w.at[i + 1] {
                    if !removed(w.c[i]) && info.levels[k].number() != want[i] {
                        return false;
                    }
                    k += 1;
                }
                i += 1;
            }
        }
        from = end;
    }
    p == info.paragraphs.len()
}
fn check(n: usize, len: usize, default: Option<u8>, levels: bool, keep: fn(B) -> bool) -> bool {
    let mut text = String::new();
    match unknown(&mut text, n, len, keep) {
        Some((c, at)) => compare(&Want { n, text: &text, c, at }, default, levels),
        None => true,
    }
}
fn weak(b: B) -> bool {
    matches!(b, B::EuropeanNumber | B::EuropeanSeparator | B::EuropeanTerminator | B::ArabicNumber | B::ArabicLetter | B::CommonSeparator | B::NonspacingMark)
}
fn no_weak(b: B) -> bool { !weak(b) }
fn plain(b: B) -> bool { weak(b) || matches!(b, B::LeftToRight | B::RightToLeft | B::OtherNeutral | B::BoundaryNeutral) }
pub fn explicit_3() -> bool { let d = pick_of([0, 1, 2, 124, 125]); check(3, 3, Some(d), true, no_weak) }
fn pick_of(a: [u8; 5]) -> u8 { a[pick(0, 5) as usize] }
fn nested(b: B) -> bool { initiator(b) && b != B::LeftToRightIsolate || matches!(b, B::PopDirectionalIsolate | B::LeftToRightEmbedding | B::RightToLeftOverride | B::PopDirectionalFormat | B::RightToLeft | B::LeftToRight) }
pub fn explicit_5() -> bool { check(5, 3, Some(0), true, nested) }
pub fn explicit_5t() -> bool { check(5, 3, Some(pick(123, 3)), true, |b| matches!(b, B::RightToLeftIsolate | B::PopDirectionalIsolate | B::LeftToRightEmbedding | B::RightToLeftOverride | B::PopDirectionalFormat | B::LeftToRight)) }
pub fn explicit_4r() -> bool { check(4, 3, Some(1), true, nested) }
pub fn explicit_4t() -> bool { check(4, 3, Some(pick(123, 3)), true, nested) }
pub fn explicit_4() -> bool { check(4, 3, None, true, no_weak) }
fn strong(b: B) -> bool { initiator(b) || matches!(b, B::PopDirectionalIsolate | B::LeftToRight | B::RightToLeft | B::ParagraphSeparator) }
pub fn para_3() -> bool { check(3, 3, None, false, all) }
pub fn para_4() -> bool { check(4, 3, None, false, strong) }
pub fn para_5() -> bool { check(5, 3, None, false, |b| strong(b) && !matches!(b, B::LeftToRightIsolate | B::ParagraphSeparator)) }
pub fn para_d() -> bool { check(3, 3, Some(pick(0, 2)), false, all) }
pub fn para_b() -> bool { check(3, pick(1, 4) as usize, None, false, all) }
pub fn weak_3() -> bool { check(3, 3, None, true, all) }
pub fn weak_3b() -> bool { check(3, 1, None, true, all) }
pub fn weak_3r() -> bool { check(3, 3, Some(1), true, all) }
pub fn weak_3l() -> bool { check(3, 3, Some(0), true, all) }
pub fn weak_3t() -> bool { check(3, 3, Some(125), true, all) }
pub fn weak_4() -> bool { check(4, 3, None, true, plain) }
pub fn weak_4b() -> bool { check(4, 1, None, true, plain) }
pub fn weak_4r() -> bool { check(4, 1, Some(1), true, plain) }
pub fn weak_4l() -> bool { check(4, 1, Some(0), true, plain) }
pub fn sizes_2() -> bool { check(2, pick(1, 4) as usize, if lazy::choice() { None } else { Some(1) }, true, all) }
pub fn empty() -> bool {
    let info = BidiInfo::new("", None);
    info.paragraphs.is_empty() && info.levels.is_empty() && info.original_classes.is_empty() && !info.has_rtl()
}
