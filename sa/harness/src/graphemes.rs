//! Grapheme cluster boundaries: UAX #29 (Unicode 10.0), rules GB1..GB999, as an automaton over the
//! Grapheme_Cluster_Break values, against the iterators of `unic::segment`.
use crate::lazy;
use unic::segment::{GraphemeCursor, GraphemeIncomplete, GraphemeIndices, Graphemes};
use unic::ucd::segment::GraphemeClusterBreak as G;

/// what of the text before a position matters for a boundary there
#[derive(Clone, Copy, PartialEq)]
pub enum B { Sot, CR, Ctl, L, V, T, Prepend, Base, BaseExt, Zwj, RIodd, RIeven, Other }

fn boundary(b: B, g: G, extended: bool) -> bool {
    if b == B::CR && g == G::LF {
        return false; // GB3
    }
    if matches!(b, B::CR | B::Ctl) || matches!(g, G::Control | G::CR | G::LF) {
        return true; // GB4, GB5
    }
    if b == B::L && matches!(g, G::L | G::V | G::LV | G::LVT) {
        return false; // GB6
    }
    if b == B::V && matches!(g, G::V | G::T) {
        return false; // GB7
    }
    if b == B::T && g == G::T {
        return false; // GB8
    }
    if matches!(g, G::Extend | G::ZWJ) {
        return false; // GB9
    }
    if extended && (g == G::SpacingMark || b == B::Prepend) {
        return false; // GB9a, GB9b
    }
    if matches!(b, B::Base | B::BaseExt) && g == G::EModifier {
        return false; // GB10
    }
    if b == B::Zwj && matches!(g, G::GlueAfterZwj | G::EBaseGAZ) {
        return false; // GB11
    }
    if b == B::RIodd && g == G::RegionalIndicator {
        return false; // GB12, GB13
    }
    true // GB999
}
fn advance(b: B, g: G) -> B {
    match g {
        G::CR => B::CR,
        G::LF | G::Control => B::Ctl,
        G::L => B::L,
        G::V | G::LV => B::V,
        G::T | G::LVT => B::T,
        G::Prepend => B::Prepend,
        G::EBase | G::EBaseGAZ => B::Base,
        G::Extend if matches!(b, B::Base | B::BaseExt) => B::BaseExt,
        G::ZWJ => B::Zwj,
        G::RegionalIndicator => if b == B::RIodd { B::RIeven } else { B::RIodd },
        _ => B::Other,
    }
}

pub struct Spec { left: B, extended: bool, end: usize, at: Option<usize> }
impl Spec {
    fn new(extended: bool) -> Spec { Spec { left: B::Sot, extended, end: 0, at: None } }
    pub fn step(&mut self, pos: usize, c: char) {
        if self.at.is_some() {
            lazy::overrun();
        }
        let g = G::of(c);
        if self.left != B::Sot && boundary(self.left, g, self.extended) {
            self.at = Some(pos);
        }
        self.left = advance(self.left, g);
        self.end = pos + c.len_utf8();
    }
}
fn class(c: char) -> u8 {
    match G::of(c) {
        G::Extend => 0x10,
        G::EBase | G::EBaseGAZ => 8,
        G::RegionalIndicator => 4,
        _ => 0,
    }
}
/// read on until the next break is known; None: there is none
fn next_break(s: &'static str, m: &mut Spec, done: &mut bool) -> Option<usize> {
    while m.at.is_none() && !*done {
        if s[m.end..].chars().next().is_none() {
            *done = true;
            if m.end > 0 {
                return Some(m.end);
            }
        }
    }
    m.at.take()
}

fn walk(extended: bool) -> bool {
    lazy::tune(0, 3);
    let (s, m) = lazy::text(Spec::new(extended), Spec::step, class);
    let mut it = if extended { Graphemes::new(s) } else { Graphemes::new_legacy(s) };
    let (mut at, mut done) = (0, false);
    loop {
        let w = it.next();
        let b = next_break(s, m, &mut done);
        match (w, b) {
            (None, None) => return true,
            (Some(w), Some(b)) => {
                if w.as_ptr() as usize - s.as_ptr() as usize != at || at + w.len() != b {
                    return false;
                }
                let r = it.as_str();
                if r.as_ptr() as usize - s.as_ptr() as usize != b || r.len() != s.len() - b {
                    return false;
                }
                at = b;
            }
            _ => return false,
        }
    }
}
pub fn extended() -> bool { walk(true) }
pub fn legacy() -> bool { walk(false) }

/// the same with offsets
fn walk_indices(extended: bool) -> bool {
    lazy::tune(0, 3);
    let (s, m) = lazy::text(Spec::new(extended), Spec::step, class);
    let mut it = if extended { GraphemeIndices::new(s) } else { GraphemeIndices::new_legacy(s) };
    let (mut at, mut done) = (0, false);
    loop {
        let w = it.next();
        let b = next_break(s, m, &mut done);
        match (w, b) {
            (None, None) => return true,
            (Some((i, w)), Some(b)) => {
                if i != at || w.as_ptr() as usize - s.as_ptr() as usize != at || at + w.len() != b {
                    return false;
                }
                let r = it.as_str();
                if r.as_ptr() as usize - s.as_ptr() as usize != b || r.len() != s.len() - b {
                    return false;
                }
                at = b;
            }
            _ => return false,
        }
    }
}
pub fn extended_indices() -> bool { walk_indices(true) }
pub fn legacy_indices() -> bool { walk_indices(false) }

/// the context of one position: what precedes it, read backwards, and the character after it
pub struct Near { extended: bool, start: usize, right: Option<G>, first: Option<G>, open: bool, base: bool, odd: bool }
impl Near {
    fn new(extended: bool) -> Near { Near { extended, start: 0, right: None, first: None, open: true, base: false, odd: false } }
    pub fn step(&mut self, pos: usize, c: char, back: bool) {
        let g = G::of(c);
        if !back {
            if self.right.is_none() {
                self.right = Some(g);
            }
            return;
        }
        self.start = pos;
        match self.first {
            None => {
                self.first = Some(g);
                self.odd = g == G::RegionalIndicator;
                self.open = matches!(g, G::RegionalIndicator | G::Extend);
            }
            Some(G::RegionalIndicator) if self.open && g == G::RegionalIndicator => self.odd = !self.odd,
            Some(G::Extend) if self.open && g == G::Extend => {}
            Some(_) => {
                if self.open {
                    self.base = matches!(g, G::EBase | G::EBaseGAZ);
                }
                self.open = false;
            }
        }
    }
}
/// whether there is a boundary at `at`; reads what the cursor has not
fn verdict(s: &'static str, at: usize, m: &mut Near) -> bool {
    if m.right.is_none() && s[at..].chars().next().is_none() {
        return true; // GB2
    }
    if m.first.is_none() && s[..at].chars().next_back().is_none() {
        return true; // GB1
    }
    let (b, g) = (m.first.unwrap(), m.right.unwrap());
    let left = match b {
        G::RegionalIndicator => {
            while g == G::RegionalIndicator && m.open && s[..m.start].chars().next_back().is_some() {}
            if m.odd { B::RIodd } else { B::RIeven }
        }
        G::Extend => {
            while g == G::EModifier && m.open && s[..m.start].chars().next_back().is_some() {}
            if m.base { B::BaseExt } else { B::Other }
        }
        b => advance(B::Other, b),
    };
    boundary(left, g, m.extended)
}
fn near_class(c: char) -> u8 {
    match G::of(c) {
        G::Extend => 0x10,
        G::EBase | G::EBaseGAZ => 8,
        G::RegionalIndicator => 4,
        _ => 0,
    }
}
fn cursor(extended: bool, at: usize, len: usize) -> GraphemeCursor {
    if extended { GraphemeCursor::new(at, len) } else { GraphemeCursor::new_legacy(at, len) }
}
/// a position of a text given as a whole
fn anywhere(extended: bool) -> bool {
    lazy::tune(0, 3);
    let (s, at, m) = lazy::text_at(Near::new(extended), Near::step, near_class);
    let mut c = cursor(extended, at, s.len());
    let r = c.is_boundary(s, 0);
    if c.cur_cursor() != at {
        return false;
    }
    r == Ok(verdict(s, at, m))
}
pub fn anywhere_extended() -> bool { anywhere(true) }
pub fn anywhere_legacy() -> bool { anywhere(false) }

/// a position of a text given in pieces
fn pieces(extended: bool) -> bool {
    lazy::tune(0, 3);
    let (s, at, m) = lazy::text_at(Near::new(extended), Near::step, near_class);
    let from = lazy::cut(&s[..at]);
    let to = at + lazy::cut(&s[at..]);
    if at < s.len() && to == at {
        return true;
    }
    let mut c = cursor(extended, at, s.len());
    let mut low = from;
    loop {
        match c.is_boundary(&s[from..to], from) {
            Ok(b) => return c.cur_cursor() == at && b == verdict(s, at, m),
            Err(GraphemeIncomplete::PreContext(n)) => {
                if n != low || n == 0 {
                    return false;
                }
                low = lazy::cut(&s[..n]);
                if low == n {
                    return true;
                }
                c.provide_context(&s[low..n], low);
            }
            Err(_) => return false,
        }
    }
}
pub fn pieces_extended() -> bool { pieces(true) }
pub fn pieces_legacy() -> bool { pieces(false) }

/// the break before a position, by reading backwards
#[derive(Clone, Copy, PartialEq)]
enum Scan { Start, Pair, Flag { one: bool, odd: bool }, Mod }
pub struct Before { extended: bool, start: usize, scan: Scan, right: G, p: usize, flag: usize, found: Option<usize> }
impl Before {
    fn new(extended: bool) -> Before {
        Before { extended, start: 0, scan: Scan::Start, right: G::Other, p: 0, flag: 0, found: None }
    }
    fn pair(&mut self, pos: usize, g: G) {
        // `p` is a candidate, `right` follows it and `g` precedes it
        match (g, self.right) {
            (G::RegionalIndicator, G::RegionalIndicator) => {
                self.scan = Scan::Flag { one: true, odd: true };
                self.flag = pos;
            }
            (G::Extend, G::EModifier) => self.scan = Scan::Mod,
            _ => {
                if boundary(advance(B::Other, g), self.right, self.extended) {
                    self.found = Some(self.p);
                }
                self.p = pos;
                self.right = g;
                self.scan = Scan::Pair;
            }
        }
    }
    pub fn step(&mut self, pos: usize, c: char, back: bool) {
        if !back || self.found.is_some() {
            return;
        }
        let g = G::of(c);
        self.start = pos;
        match self.scan {
            Scan::Start => {
                self.p = pos;
                self.right = g;
                self.scan = Scan::Pair;
            }
            Scan::Pair => self.pair(pos, g),
            Scan::Flag { odd, .. } if g == G::RegionalIndicator => self.scan = Scan::Flag { one: false, odd: !odd },
            Scan::Flag { one, odd } => {
                if !odd {
                    self.found = Some(self.p);
                } else {
                    self.p = self.flag;
                    if one {
                        self.pair(pos, g);
                    } else {
                        self.found = Some(self.p);
                    }
                }
            }
            Scan::Mod => match g {
                G::Extend => {}
                G::EBase | G::EBaseGAZ => {
                    self.p = pos;
                    self.right = g;
                    self.scan = Scan::Pair;
                }
                _ => self.found = Some(self.p),
            },
        }
    }
}
fn break_before(s: &'static str, m: &mut Before, at: usize) -> Option<usize> {
    if m.scan == Scan::Start {
        s[..at].chars().next_back()?;
    }
    while m.found.is_none() && s[..m.start].chars().next_back().is_some() {}
    if m.found.is_some() {
        return m.found;
    }
    // the start of the text
    Some(match m.scan {
        Scan::Flag { odd: true, one: false } => m.flag,
        Scan::Flag { odd: false, .. } | Scan::Mod => m.p,
        _ => 0,
    })
}
fn before(extended: bool) -> bool {
    lazy::tune(0, 3);
    let (s, at, m) = lazy::text_at(Before::new(extended), Before::step, near_class);
    let mut c = cursor(extended, at, s.len());
    let r = c.prev_boundary(s, 0);
    let b = break_before(s, m, at);
    c.cur_cursor() == b.unwrap_or(0) && r == Ok(b)
}
pub fn before_extended() -> bool { before(true) }
pub fn before_legacy() -> bool { before(false) }

/// the break after a position: reads forwards, and backwards where the context matters
#[derive(Clone, Copy, PartialEq)]
enum Run { Start, Known(B), Flag, Ext }
pub struct After { extended: bool, near: Near, run: Run, ask: Option<usize>, found: Option<usize>, end: usize }
impl After {
    fn new(extended: bool) -> After {
        After { extended, near: Near::new(extended), run: Run::Start, ask: None, found: None, end: 0 }
    }
    /// decide the pending boundary, if what is known of the context suffices
    fn settle(&mut self, sot: bool) {
        let p = match self.ask {
            Some(p) => p,
            None => return,
        };
        let n = &self.near;
        let same = if self.run == Run::Flag { G::RegionalIndicator } else { G::Extend };
        if !sot && (n.first.is_none() || n.first == Some(same) && n.open) {
            return;
        }
        let joined = match self.run {
            Run::Flag => !(n.first == Some(G::RegionalIndicator) && n.odd),
            _ => match n.first {
                Some(G::Extend) => n.base,
                f => matches!(f, Some(G::EBase) | Some(G::EBaseGAZ)),
            },
        };
        self.ask = None;
        if joined {
            self.run = Run::Known(if self.run == Run::Flag { B::RIeven } else { B::Other });
        } else {
            self.found = Some(p);
        }
    }
    pub fn step(&mut self, pos: usize, c: char, back: bool) {
        if self.found.is_some() {
            if !back {
                lazy::overrun();
            }
            return;
        }
        if back {
            self.near.step(pos, c, true);
            self.settle(false);
            return;
        }
        if self.ask.is_some() {
            let sot = self.near.start == 0;
            self.settle(sot);
            if self.ask.is_some() || self.found.is_some() {
                lazy::overrun();
            }
        }
        self.end = pos + c.len_utf8();
        let g = G::of(c);
        let b = match self.run {
            Run::Start => {
                self.run = match g {
                    G::RegionalIndicator => Run::Flag,
                    G::Extend => Run::Ext,
                    g => Run::Known(advance(B::Other, g)),
                };
                return;
            }
            Run::Flag if g == G::RegionalIndicator => {
                self.ask = Some(pos);
                return self.settle(false);
            }
            Run::Ext if g == G::EModifier => {
                self.ask = Some(pos);
                return self.settle(false);
            }
            Run::Ext if g == G::Extend => return,
            Run::Flag => B::RIeven,
            Run::Ext => B::Other,
            Run::Known(b) => b,
        };
        if boundary(b, g, self.extended) {
            self.found = Some(pos);
        }
        self.run = Run::Known(advance(b, g));
    }
}
fn break_after(s: &'static str, m: &mut After) -> Option<usize> {
    while m.found.is_none() {
        if m.ask.is_some() {
            let sot = s[..m.near.start].chars().next_back().is_none();
            m.settle(sot);
        } else if s[m.end..].chars().next().is_none() {
            if m.run == Run::Start {
                return None;
            }
            m.found = Some(m.end);
        }
    }
    m.found
}
fn after(extended: bool) -> bool {
    lazy::tune(0, 3);
    let (s, at, m) = lazy::text_at(After::new(extended), After::step, near_class);
    m.near.start = at;
    m.end = at;
    let mut c = cursor(extended, at, s.len());
    let r = c.next_boundary(s, 0);
    let b = break_after(s, m);
    c.cur_cursor() == b.unwrap_or(s.len()) && r == Ok(b)
}
pub fn after_extended() -> bool { after(true) }
pub fn after_legacy() -> bool { after(false) }

/// a cursor that was interrupted elsewhere and then moved to `at`
fn moved(extended: bool, s: &'static str, at: usize) -> GraphemeCursor {
    let other = if lazy::choice() { 0 } else { s.len() };
    let mut c = cursor(extended, at, s.len());
    if lazy::choice() {
        let _ = c.is_boundary(&s[at..], at);
    } else {
        // (asks for the piece after, or before, what is given)
        let p = match if lazy::choice() { s[..at].chars().next_back() } else { None } {
            Some(x) => at - x.len_utf8(),
            None => at,
        };
        c.set_cursor(p);
        if p < at {
            let _ = c.next_boundary(&s[p..at], p);
        } else if at < s.len() {
            let _ = c.prev_boundary(&s[at..], at);
        }
    }
    c.set_cursor(other);
    c.set_cursor(at);
    c
}
fn moved_is(extended: bool) -> bool {
    lazy::tune(0, 3);
    let (s, at, m) = lazy::text_at(Near::new(extended), Near::step, near_class);
    let mut c = moved(extended, s, at);
    let r = c.is_boundary(s, 0);
    c.cur_cursor() == at && r == Ok(verdict(s, at, m))
}
pub fn moved_extended() -> bool { moved_is(true) }
pub fn moved_legacy() -> bool { moved_is(false) }
fn moved_prev(extended: bool) -> bool {
    lazy::tune(0, 3);
    let (s, at, m) = lazy::text_at(Before::new(extended), Before::step, near_class);
    let mut c = moved(extended, s, at);
    let r = c.prev_boundary(s, 0);
    let b = break_before(s, m, at);
    c.cur_cursor() == b.unwrap_or(0) && r == Ok(b)
}
pub fn moved_before_extended() -> bool { moved_prev(true) }
pub fn moved_before_legacy() -> bool { moved_prev(false) }

/// the text in two pieces, cut at the cursor or one char before it
fn split(extended: bool) -> bool {
    lazy::tune(0, 3);
    let (s, at, m) = lazy::text_at(Before::new(extended), Before::step, near_class);
    let mut from = at;
    if lazy::choice() {
        match s[..at].chars().next_back() {
            Some(c) => from = at - c.len_utf8(),
            None => return true,
        }
    }
    let mut c = cursor(extended, at, s.len());
    let mut r = c.prev_boundary(&s[from..], from);
    if at > 0 && from > 0 {
        match r {
            Err(GraphemeIncomplete::PreContext(n)) if n == from => {
                c.provide_context(&s[..from], 0);
                r = c.prev_boundary(&s[from..], from);
            }
            _ => {}
        }
        if let Err(GraphemeIncomplete::PrevChunk) = r {
            r = c.prev_boundary(&s[..from], 0);
        }
    }
    let b = break_before(s, m, at);
    c.cur_cursor() == b.unwrap_or(0) && r == Ok(b)
}
pub fn split_before_extended() -> bool { split(true) }
pub fn split_before_legacy() -> bool { split(false) }

/// a cursor that has answered, or asked, next to `at` and then comes back
fn back(extended: bool) -> bool {
    lazy::tune(0, 3);
    let (s, at, m) = lazy::text_at(Near::new(extended), Near::step, near_class);
    let mut c = cursor(extended, at, s.len());
    let (left, right) = (s[..at].chars().next_back(), s[at..].chars().next());
    let from = left.map(|x| at - x.len_utf8()).unwrap_or(at);
    c.set_cursor(right.map(|x| at + x.len_utf8()).unwrap_or(at));
    if lazy::choice() {
        let _ = c.is_boundary(&s[from..], from);
    } else if c.cur_cursor() < s.len() {
        let _ = c.prev_boundary(&s[from..], from);
    }
    if c.cur_cursor() == at {
        c.set_cursor(if lazy::choice() { 0 } else { s.len() });
    }
    c.set_cursor(at);
    let r = c.is_boundary(s, 0);
    c.cur_cursor() == at
        && r == Ok(verdict(s, at, m))
        && (left, right) == (s[..at].chars().next_back(), s[at..].chars().next())
}
pub fn back_extended() -> bool { back(true) }
pub fn back_legacy() -> bool { back(false) }

/// the last cluster of any text
fn last(extended: bool, indices: bool) -> bool {
    lazy::tune(0, 3);
    let (s, at, m) = lazy::text_at(Before::new(extended), Before::step, near_class);
    // the end of the text
    if s[at..].chars().next().is_some() {
        return true;
    }
    let w = if indices {
        let mut it = if extended { GraphemeIndices::new(s) } else { GraphemeIndices::new_legacy(s) };
        it.next_back()
    } else {
        let mut it = if extended { Graphemes::new(s) } else { Graphemes::new_legacy(s) };
        it.next_back().map(|w| (w.as_ptr() as usize - s.as_ptr() as usize, w))
    };
    let b = break_before(s, m, at);
    match (w, b) {
        (None, None) => true,
        (Some((i, w)), Some(b)) => i == b && w.as_ptr() as usize - s.as_ptr() as usize == b && w.len() == at - b,
        _ => false,
    }
}
pub fn last_extended() -> bool { last(true, false) }
pub fn last_legacy() -> bool { last(false, false) }
pub fn last_extended_indices() -> bool { last(true, true) }
pub fn last_legacy_indices() -> bool { last(false, true) }

/// from both ends in any order, on a text of at most three characters: the clusters found forwards
fn mixed(extended: bool) -> bool {
    lazy::tune(0, 99);
    let (s, _) = lazy::text((), |_, _, _| (), |_| 0);
    let mut k = s.chars();
    if k.next().is_some() && k.next().is_some() && k.next().is_some() && k.next().is_some() {
        return true;
    }
    let mut cuts = [0usize; 4];
    let mut n = 0;
    let mut walk = if extended { Graphemes::new(s) } else { Graphemes::new_legacy(s) };
    while let Some(w) = walk.next() {
        cuts[n + 1] = cuts[n] + w.len();
        n += 1;
    }
    let mut it = if extended { GraphemeIndices::new(s) } else { GraphemeIndices::new_legacy(s) };
    let (mut lo, mut hi) = (0, n);
    loop {
        let front = lazy::choice();
        let w = if front { it.next() } else { it.next_back() };
        match w {
            None => return lo == hi,
            Some((i, w)) => {
                if lo == hi {
                    return false;
                }
                let x = if front { lo } else { hi - 1 };
                if i != cuts[x] || w.as_ptr() as usize - s.as_ptr() as usize != i || w.len() != cuts[x + 1] - i {
                    return false;
                }
                if front {
                    lo += 1;
                } else {
                    hi -= 1;
                }
                let r = it.as_str();
                if r.as_ptr() as usize - s.as_ptr() as usize != cuts[lo] || r.len() != cuts[hi] - cuts[lo] {
                    return false;
                }
            }
        }
    }
}
pub fn mixed_extended() -> bool { mixed(true) }
pub fn mixed_legacy() -> bool { mixed(false) }
