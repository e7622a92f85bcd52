//! A recording `tracing` subscriber, one state per thread, which counts references the way
//! `tracing_subscriber::Registry` does (an open child keeps its parent open).
use std::cell::RefCell;
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event, Metadata, Subscriber};

pub const NAMES: [&str; 3] = ["xtra_actor_request", "xtra_message_waiting_for_actor", "xtra_message_handler"];

pub struct SpanRec {
    pub meta: &'static Metadata<'static>,
    pub parent: Option<u64>,
    /// Handles and open children.
    pub refs: u32,
    pub handles: u32,
    pub open: bool,
    pub fields: Vec<(String, String)>,
}

#[derive(Default)]
pub struct Rec {
    /// Bit i: spans called NAMES[i] are enabled.
    pub filter: u8,
    pub spans: Vec<SpanRec>,
    pub stack: Vec<u64>,
    pub errors: Vec<String>,
}

thread_local! {
    pub static REC: RefCell<Rec> = RefCell::new(Rec::default());
}

impl Rec {
    pub fn top(&self) -> Option<u64> {
        self.stack.last().copied()
    }

    pub fn get(&self, id: u64) -> &SpanRec {
        &self.spans[id as usize - 1]
    }

    fn close(&mut self, id: u64) -> bool {
        let s = &mut self.spans[id as usize - 1];
        if s.refs == 0 {
            self.errors.push(format!("span {} {id} is closed more often than it was opened", s.meta.name()));
            return false;
        }
        s.refs -= 1;
        if s.refs > 0 {
            return false;
        }
        s.open = false;
        if self.stack.contains(&id) {
            let n = self.spans[id as usize - 1].meta.name();
            self.errors.push(format!("span {n} {id} is closed while it is entered"));
        }
        if let Some(p) = self.spans[id as usize - 1].parent {
            self.close(p);
        }
        true
    }
}

struct Fields<'a>(&'a mut Vec<(String, String)>);

impl Visit for Fields<'_> {
    fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
        self.0.push((f.name().into(), format!("{v:?}")));
    }
}

pub struct Recorder;

thread_local! {
    /// What the subscriber does besides recording: it uses the actor's mailbox.
    pub static HOOK: RefCell<Option<Box<dyn Fn()>>> = RefCell::new(None);
}

fn with<R>(f: impl FnOnce(&mut Rec) -> R) -> R {
    let r = REC.with(|r| f(&mut r.borrow_mut()));
    // What it does might call the subscriber again.
    if let Ok(h) = HOOK.try_with(|h| h.take()) {
        if let Some(h) = h {
            h();
            HOOK.with(|x| *x.borrow_mut() = Some(h));
        }
    }
    r
}

impl Subscriber for Recorder {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }

    fn enabled(&self, m: &Metadata<'_>) -> bool {
        match NAMES.iter().position(|n| *n == m.name()) {
            Some(i) => with(|r| r.filter >> i & 1 == 1),
            None => true,
        }
    }

    fn new_span(&self, a: &Attributes<'_>) -> Id {
        with(|r| {
            let parent = match a.parent() {
                Some(p) => Some(p.into_u64()),
                None if a.is_contextual() => r.top(),
                None => None,
            };
            let mut fields = vec![];
            a.record(&mut Fields(&mut fields));
            if let Some(p) = parent {
                let s = &mut r.spans[p as usize - 1];
                s.refs += 1;
                if !s.open {
                    let n = s.meta.name();
                    r.errors.push(format!("span {} gets the closed span {n} {p} as its parent", a.metadata().name()));
                }
            }
            r.spans.push(SpanRec { meta: a.metadata(), parent, refs: 1, handles: 1, open: true, fields });
            Id::from_u64(r.spans.len() as u64)
        })
    }

    fn record(&self, s: &Id, v: &Record<'_>) {
        with(|r| v.record(&mut Fields(&mut r.spans[s.into_u64() as usize - 1].fields)))
    }

    fn record_follows_from(&self, _: &Id, _: &Id) {}

    fn event(&self, _: &Event<'_>) {}

    fn enter(&self, s: &Id) {
        with(|r| {
            r.stack.push(s.into_u64());
            if !r.get(s.into_u64()).open {
                let n = r.get(s.into_u64()).meta.name();
                r.errors.push(format!("the closed span {n} is entered"));
            }
        })
    }

    fn exit(&self, s: &Id) {
        with(|r| match r.stack.pop() {
            Some(t) if t == s.into_u64() => {}
            t => r.errors.push(format!("span {} is exited while {t:?} is the current one", s.into_u64())),
        })
    }

    fn clone_span(&self, s: &Id) -> Id {
        with(|r| {
            r.spans[s.into_u64() as usize - 1].refs += 1;
            r.spans[s.into_u64() as usize - 1].handles += 1;
        });
        s.clone()
    }

    fn try_close(&self, s: Id) -> bool {
        with(|r| {
            let x = &mut r.spans[s.into_u64() as usize - 1];
            x.handles = x.handles.saturating_sub(1);
            r.close(s.into_u64())
        })
    }

    fn current_span(&self) -> tracing_core::span::Current {
        with(|r| match r.top() {
            Some(t) => tracing_core::span::Current::new(Id::from_u64(t), r.get(t).meta),
            None => tracing_core::span::Current::none(),
        })
    }
}
