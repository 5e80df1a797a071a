//! Minimisation of a failing run: fewer parses, faults, items, switches, while it still fails the same way.
use crate::plan::*;

pub struct Shrink<'a> {
    pub fails: &'a mut dyn FnMut(&Run) -> bool,
    pub left: usize,
    pub until: std::time::Instant,
}

impl Shrink<'_> {
    fn ok(&mut self, r: &Run) -> bool {
        if self.left == 0 || std::time::Instant::now() > self.until {
            return false;
        }
        self.left -= 1;
        (self.fails)(r)
    }

    fn take(&mut self, cur: &mut Run, cand: Run) -> bool {
        if self.ok(&cand) {
            *cur = cand;
            true
        } else {
            false
        }
    }

    pub fn run(&mut self, r: &mut Run) {
        loop {
            let mut ch = false;
            // parses
            let mut i = 0;
            while i < r.history.len() {
                let mut c = r.clone();
                c.history.remove(i);
                if self.take(r, c) {
                    ch = true
                } else {
                    i += 1
                }
            }
            while r.times > 1 {
                let mut c = r.clone();
                c.times = r.times / 2;
                if !self.take(r, c) {
                    break;
                }
                ch = true
            }
            let mut i = 0;
            while r.tasks.len() > 1 && i < r.tasks.len() {
                let mut c = r.clone();
                c.tasks.remove(i);
                if let Order::List(l) = &mut c.order {
                    l.retain(|x| *x as usize != i);
                    for x in l.iter_mut() {
                        if *x as usize > i {
                            *x -= 1
                        }
                    }
                }
                if self.take(r, c) {
                    ch = true
                } else {
                    i += 1
                }
            }
            if r.threads && r.tasks.len() == 1 {
                let mut c = r.clone();
                c.threads = false;
                ch |= self.take(r, c);
            }
            if r.world != 0 {
                let mut c = r.clone();
                c.world = 0;
                ch |= self.take(r, c);
            }
            if r.preempt.is_some() {
                let mut c = r.clone();
                c.preempt = None;
                ch |= self.take(r, c);
            }
            // schedule
            if let Order::List(l) = &r.order {
                if !l.is_empty() {
                    let mut c = r.clone();
                    c.order = Order::List(vec![]);
                    ch |= self.take(r, c);
                }
            }
            if let Order::List(l) = r.order.clone() {
                let mut n = l.len() / 2;
                let mut l = l;
                while n >= 1 {
                    let mut i = 0;
                    while i + n <= l.len() {
                        let mut q = l.clone();
                        q.drain(i..i + n);
                        let mut c = r.clone();
                        c.order = Order::List(q.clone());
                        if self.take(r, c) {
                            l = q;
                            ch = true
                        } else {
                            i += n
                        }
                    }
                    n /= 2
                }
            }
            let nt = r.tasks.len();
            for i in 0..nt + r.history.len() {
                ch |= self.task(r, &mut |r| if i < nt { &mut r.tasks[i] } else { &mut r.history[i - nt] });
            }
            if !ch || self.left == 0 || std::time::Instant::now() > self.until {
                break;
            }
        }
    }

    fn edit(&mut self, r: &mut Run, at: &mut dyn FnMut(&mut Run) -> &mut Task, f: &dyn Fn(&mut Task)) -> bool {
        let mut c = r.clone();
        f(at(&mut c));
        self.take(r, c)
    }

    fn task(&mut self, r: &mut Run, at: &mut dyn FnMut(&mut Run) -> &mut Task) -> bool {
        let mut ch = false;
        let mut i = 0;
        while i < at(r).nested.len() {
            if self.edit(r, at, &|t| {
                t.nested.remove(i);
            }) {
                ch = true
            } else {
                ch |= self.task(r, &mut |r| &mut at(r).nested[i].1);
                i += 1
            }
        }
        if at(r).crash_at.is_some() {
            ch |= self.edit(r, at, &|t| t.crash_at = None);
        }
        if let Some(c) = at(r).crash_at {
            for k in [0, c / 2, c.saturating_sub(1)] {
                if k < c && self.edit(r, at, &|t| t.crash_at = Some(k)) {
                    ch = true;
                    break;
                }
            }
        }
        if at(r).crash_eclone {
            ch |= self.edit(r, at, &|t| t.crash_eclone = false);
        }
        if at(r).hint > 0 {
            ch |= self.edit(r, at, &|t| t.hint = 0);
        }
        if at(r).crash_drop.is_some() {
            ch |= self.edit(r, at, &|t| t.crash_drop = None);
        }
        if let Some(c) = at(r).crash_drop {
            for k in [0, c / 2, c.saturating_sub(1)] {
                if k < c && self.edit(r, at, &|t| t.crash_drop = Some(k)) {
                    ch = true;
                    break;
                }
            }
        }
        while !at(r).stalls.is_empty() && self.edit(r, at, &|t| {
            t.stalls.pop();
        }) {
            ch = true
        }
        while at(r).docs > 1 && self.edit(r, at, &|t| t.docs -= 1) {
            ch = true
        }
        // repeated pieces
        for k in 0..at(r).segs.len() {
            loop {
                let n = at(r).segs[k].0;
                if n <= 1 {
                    break;
                }
                let mut done = true;
                for m in [1, n / 2, n - n / 8, n - 1] {
                    if m < n && m > 0 {
                        // pieces of equal count belong together (pumped streams)
                        if self.edit(r, at, &|t| t.segs.iter_mut().for_each(|s| if s.0 == n { s.0 = m }))
                            || self.edit(r, at, &|t| t.segs[k].0 = m)
                        {
                            ch = true;
                            done = false;
                            break;
                        }
                    }
                }
                if done {
                    break;
                }
            }
        }
        if at(r).segs.len() > 1 && at(r).len() <= 3000 {
            let items = at(r).items();
            self.edit(r, at, &|t| t.segs = vec![(1, items.clone())]);
        }
        for k in 0..at(r).segs.len() {
            let mut n = (at(r).segs[k].1.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < at(r).segs[k].1.len() {
                    let len = at(r).segs[k].1.len();
                    let e = (i + n).min(len);
                    if self.edit(r, at, &|t| {
                        t.segs[k].1.drain(i..e);
                    }) {
                        ch = true
                    } else {
                        i += n
                    }
                }
                if n == 1 {
                    break;
                }
                n /= 2
            }
        }
        ch
    }
}
