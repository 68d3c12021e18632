//! E13: sessions.
use ass_editor::core::{EditorDocument, EditorError, Position};
use ass_editor::{EditorSessionManager, SessionConfig};
use mc_common::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug)]
enum Op {
    Create(usize),
    With(usize),
    Switch(usize),
    Remove(usize),
    Edit(usize),
    Fail(usize),
    Undo(usize),
    Read(usize),
    Cleanup,
    CleanupNone,
    Arena,
}

const NAMES: [&str; 3] = ["a", "", "ab"];

fn ops() -> Vec<Op> {
    let mut v = Vec::new();
    for n in 0..3 {
        v.extend([Op::Create(n), Op::Switch(n), Op::Remove(n), Op::Edit(n)]);
    }
    v.extend([Op::With(0), Op::With(1), Op::Fail(0), Op::Undo(0), Op::Undo(1), Op::Read(1), Op::Cleanup, Op::CleanupNone, Op::Arena]);
    v
}

#[derive(Clone, Default, Hash, Debug)]
struct Model {
    /// name -> texts before the present one, present text, operations
    docs: BTreeMap<&'static str, (Vec<String>, String, usize)>,
    active: Option<&'static str>,
    since: usize,
    resets: usize,
    arena: usize,
}

struct Conf {
    limit: usize,
    interval: usize,
    auto: bool,
}

impl Model {
    fn count(&mut self, c: &Conf, n: usize) {
        self.docs.get_mut(NAMES[n]).unwrap().2 += 1;
        self.since += 1;
        self.arena += 1;
        if c.interval > 0 && self.arena >= c.interval {
            self.arena = 0;
            self.resets += 1;
        }
    }
    fn remove(&mut self, n: &str) {
        self.docs.remove(n);
        if self.active == Some(n) {
            self.active = None;
        }
    }
}

fn missing<T: std::fmt::Debug>(got: Result<T, EditorError>, n: usize, what: &str) -> Result<(), String> {
    match got {
        Err(EditorError::DocumentNotFound { id }) if id == NAMES[n] => Ok(()),
        o => Err(format!("{what} of a session that does not exist gives {o:?}")),
    }
}

fn step(m: &mut Model, s: &mut EditorSessionManager, op: Op, k: usize, c: &Conf) -> Result<(), String> {
    let e = |e: EditorError| format!("{op:?} is refused: {e}");
    match op {
        Op::Create(n) | Op::With(n) => {
            let own = matches!(op, Op::With(_)).then(|| format!("[Script Info]\nTitle: {k}"));
            let blank = EditorDocument::new().text();
            let got = match &own {
                None => s.create_session(NAMES[n].into()),
                Some(t) => s.create_session_with_document(NAMES[n].into(), EditorDocument::from_content(t).unwrap()),
            };
            if m.docs.contains_key(NAMES[n]) {
                if got.is_ok() {
                    return Err("a session is created over one with the same name".into());
                }
            } else if m.docs.len() >= c.limit {
                match got {
                    Err(EditorError::SessionLimitExceeded { current, limit }) if (current, limit) == (m.docs.len(), c.limit) => {}
                    o => return Err(format!("a session over the limit gives {o:?}")),
                }
            } else {
                got.map_err(e)?;
                m.docs.insert(NAMES[n], (vec![], own.unwrap_or(blank), 0));
                m.active.get_or_insert(NAMES[n]);
            }
        }
        Op::Switch(n) => {
            let got = s.switch_session(NAMES[n]);
            if m.docs.contains_key(NAMES[n]) {
                got.map_err(e)?;
                m.active = Some(NAMES[n]);
            } else {
                missing(got, n, "switching")?;
            }
        }
        Op::Remove(n) => {
            let got = s.remove_session(NAMES[n]);
            match m.docs.get(NAMES[n]) {
                None => missing(got, n, "removal")?,
                Some((_, text, ops)) => {
                    let got = got.map_err(e)?;
                    if (got.id.as_str(), &got.document.text(), got.operation_count) != (NAMES[n], text, *ops) {
                        return Err(format!("the removed session is {:?} with {:?} after {} operations instead of {:?} with {text:?} after {ops}", got.id, got.document.text(), got.operation_count, NAMES[n]));
                    }
                    m.remove(NAMES[n]);
                }
            }
        }
        Op::Edit(n) => {
            let add = format!("; {k}\n");
            let got = s.with_document_mut(NAMES[n], |d| {
                d.insert(Position::new(0), &add)?;
                Ok(d.text())
            });
            if let Some((old, text, _)) = m.docs.get_mut(NAMES[n]) {
                old.push(text.clone());
                *text = add + text;
                if got.map_err(e)? != *text {
                    return Err("an edit works on another document".into());
                }
                m.count(c, n);
            } else {
                missing(got, n, "editing")?;
            }
        }
        Op::Fail(n) => {
            let got = s.with_document_mut(NAMES[n], |d| d.insert(Position::new(1 << 30), "x"));
            if !m.docs.contains_key(NAMES[n]) {
                missing(got, n, "editing")?;
            } else if got.is_ok() || matches!(got, Err(EditorError::DocumentNotFound { .. })) {
                return Err(format!("a failed edit gives {got:?}"));
            }
        }
        Op::Undo(n) => {
            let got = s.with_document_mut(NAMES[n], |d| d.undo().map(|_| ()));
            match m.docs.get_mut(NAMES[n]) {
                None => missing(got, n, "undo")?,
                Some((old, text, _)) => match old.pop() {
                    Some(t) => {
                        got.map_err(e)?;
                        *text = t;
                        m.count(c, n);
                    }
                    None if got.is_ok() => return Err("undo takes back what was done elsewhere".into()),
                    None => {}
                },
            }
        }
        Op::Read(n) => {
            let got = s.with_document(NAMES[n], |d| Ok(d.text()));
            match m.docs.get(NAMES[n]) {
                None => missing(got, n, "reading")?,
                Some((_, text, _)) if got.as_ref().ok() == Some(text) => {}
                Some(_) => return Err(format!("reading gives {got:?}")),
            }
        }
        Op::Cleanup | Op::CleanupNone => {
            let now = Instant::now();
            while now.elapsed().is_zero() {}
            let all = matches!(op, Op::Cleanup);
            let got = s.cleanup_stale_sessions(if all { Duration::ZERO } else { Duration::from_secs(1 << 30) }).map_err(e)?;
            let want = if all && c.auto { m.docs.len() } else { 0 };
            if got != want {
                return Err(format!("cleanup removes {got} sessions instead of {want}"));
            }
            if c.auto {
                m.since = 0;
            }
            if want > 0 {
                m.docs.clear();
                m.active = None;
            }
        }
        Op::Arena => {
            s.reset_shared_arena();
            m.resets += 1;
            m.arena = 0;
        }
    }
    Ok(())
}

fn agree(m: &Model, s: &EditorSessionManager) -> Result<(), String> {
    let mut names = s.list_sessions().map_err(|e| e.to_string())?;
    names.sort();
    let want: Vec<&str> = m.docs.keys().copied().collect();
    if names != want {
        return Err(format!("the sessions are {names:?} instead of {want:?}"));
    }
    let active = s.active_session().map_err(|e| e.to_string())?;
    if active.as_deref() != m.active {
        return Err(format!("the active session is {active:?} instead of {:?}", m.active));
    }
    let st = s.stats();
    let got = (st.active_sessions, st.operations_since_cleanup, st.arena_resets);
    if got != (m.docs.len(), m.since, m.resets) {
        return Err(format!("sessions, operations since cleanup and arena resets are {got:?} instead of {:?}", (m.docs.len(), m.since, m.resets)));
    }
    for (n, name) in NAMES.iter().enumerate() {
        let got = s.with_document(name, |d| Ok(d.text()));
        match m.docs.get(name) {
            None => missing(got, n, "reading")?,
            Some((_, text, _)) if got.as_ref().ok() == Some(text) => {}
            Some((_, text, _)) => return Err(format!("session {name:?} holds {got:?} instead of {text:?}")),
        }
    }
    Ok(())
}

pub fn e13(r: &Run) {
    r.rule("sessions, their documents, the active one, counts and limits are what a plain table of the same operations holds; a refused operation changes nothing");
    r.assume("memory figures and limits are not part of the table; time only decides whether a session was used after it was last seen");
    let all = ops();
    let confs = [Conf { limit: 2, interval: 2, auto: true }, Conf { limit: 1, interval: 0, auto: false }, Conf { limit: 3, interval: 1, auto: true }, Conf { limit: 0, interval: 5, auto: true }];
    for (ci, c) in confs.iter().enumerate() {
        let depth = [r.pick(5, 6), r.pick(4, 5), r.pick(4, 6), 4][ci];
        r.stage(&format!("histories, at most {} sessions", c.limit), seq_count(all.len(), depth), |i| {
            let seq = seq_at(all.len(), i);
            if seq.len() < depth.min(3) {
                return Ok(()); // a beginning of longer ones
            }
            let config = SessionConfig { max_sessions: c.limit, arena_reset_interval: c.interval, auto_cleanup: c.auto, ..Default::default() };
            let mut s = EditorSessionManager::with_config(config);
            // a second handle to the same sessions
            let mut other = s.clone();
            let mut m = Model::default();
            for (k, &o) in seq.iter().enumerate() {
                let by = if k % 2 == 0 { &mut s } else { &mut other };
                step(&mut m, by, all[o], k, c).and_then(|()| agree(&m, if k % 2 == 0 { &other } else { &s })).map_err(|e| format!("{e} (step {k} of {:?})", seq.iter().map(|&o| all[o]).collect::<Vec<_>>()))?;
                r.steps(1);
            }
            r.state(&m);
            Ok(())
        });
    }
    // which operations count as use
    r.stage("use", 2 * 3, |i| {
        let mut s = EditorSessionManager::new();
        s.create_session("a".into()).map_err(|e| e.to_string())?;
        s.create_session("b".into()).map_err(|e| e.to_string())?;
        let before = Instant::now();
        while before.elapsed().is_zero() {}
        let used = Instant::now();
        match i / 2 {
            0 => s.switch_session("b"),
            1 => s.with_document_mut("b", |d| d.insert(Position::new(0), ";")),
            _ => s.with_document_mut("b", |d| d.insert(Position::new(1 << 30), ";")).or(Ok(())),
        }
        .map_err(|e| e.to_string())?;
        r.steps(3);
        let name = ["b", "a"][i as usize % 2];
        let got = s.remove_session(name).map_err(|e| e.to_string())?;
        r.state(&i);
        if (got.last_accessed >= used) != (name == "b") {
            return Err(format!("session {name} was last accessed {:?} ago when b was used", got.last_accessed.elapsed()));
        }
        Ok(())
    });
}
