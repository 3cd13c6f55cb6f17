//! A heap-owning element with a drop ledger and panic injection.
use crate::elems::{ring_ops, El, Zp};
use crate::expr::XEl;
use crate::run::Rng;
use magnesia::algebra::{Complex, Conj, Field, Ring};
use std::cell::RefCell;
use std::fmt;
use std::mem::ManuallyDrop;
use std::ops::*;

const MAGIC: u64 = 0xfeed_face_0bad_cafe;
pub const INJECTED: &str = "injected by the monitor";

#[derive(Default)]
struct Ledger {
    next: u64,
    /// value of `next` when the account was opened
    base: u64,
    /// is element `base + 1 + i` alive? (no hashing: Miri runs this too)
    live: Vec<bool>,
    num_live: usize,
    errors: Vec<String>,
    created: u64,
    dropped: u64,
    // panic injection
    armed: bool,
    ops: u64,
    target: u64,
}
impl Ledger {
    /// The flag of an element of this account.
    fn flag(&mut self, id: u64) -> Option<&mut bool> {
        let i = id.checked_sub(self.base)?.checked_sub(1)?;
        self.live.get_mut(usize::try_from(i).ok()?)
    }
    fn is_live(&mut self, id: u64) -> bool {
        self.flag(id).is_some_and(|f| *f)
    }
    fn remove(&mut self, id: u64) -> bool {
        let was = self.flag(id).is_some_and(std::mem::take);
        self.num_live -= was as usize;
        was
    }
}
thread_local! {
    static L: RefCell<Ledger> = RefCell::default();
}

/// Starts a new account; `target` is the operation that panics (0: none).
pub fn open_account(target: u64) {
    L.with(|l| {
        let mut l = l.borrow_mut();
        l.live.clear();
        (l.base, l.num_live) = (l.next, 0);
        l.errors.clear();
        (l.created, l.dropped, l.ops, l.target, l.armed) = (0, 0, 0, target, false);
    })
}
pub struct Account {
    pub created: u64,
    pub dropped: u64,
    pub live: usize,
    pub ops: u64,
    pub errors: Vec<String>,
}
pub fn close_account() -> Account {
    L.with(|l| {
        let mut l = l.borrow_mut();
        l.armed = false;
        Account { created: l.created, dropped: l.dropped, live: l.num_live, ops: l.ops, errors: std::mem::take(&mut l.errors) }
    })
}
/// Element operations inside `f` are counted and may panic.
pub fn armed<R>(f: impl FnOnce() -> R) -> R {
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            L.with(|l| l.borrow_mut().armed = false)
        }
    }
    L.with(|l| l.borrow_mut().armed = true);
    let _d = Disarm;
    f()
}
/// One operation of user code.
pub fn tick() {
    let hit = L.with(|l| {
        let mut l = l.borrow_mut();
        if l.armed {
            l.ops += 1;
            l.ops == l.target
        } else {
            false
        }
    });
    if hit {
        panic!("{INJECTED}");
    }
}

pub struct Owned {
    id: u64,
    data: ManuallyDrop<Box<[u64; 2]>>,
}
impl Owned {
    fn make(v: Zp) -> Owned {
        tick();
        let id = L.with(|l| {
            let mut l = l.borrow_mut();
            l.next += 1;
            l.created += 1;
            let id = l.next;
            l.live.push(true);
            l.num_live += 1;
            id
        });
        Owned { id, data: ManuallyDrop::new(Box::new([id ^ MAGIC, v.0])) }
    }
    pub fn get(&self) -> Zp {
        let live = L.with(|l| {
            let mut l = l.borrow_mut();
            let ok = l.is_live(self.id);
            if !ok && l.errors.len() < 8 {
                let e = format!("element {} was read after it had been dropped (or was never created)", self.id);
                l.errors.push(e);
            }
            ok
        });
        if !live {
            return Zp(0);
        }
        let d = **self.data;
        if d[0] != self.id ^ MAGIC {
            L.with(|l| l.borrow_mut().errors.push(format!("element {} holds foreign data", self.id)));
        }
        Zp(d[1])
    }
}
impl Drop for Owned {
    fn drop(&mut self) {
        let ok = L.with(|l| {
            let mut l = l.borrow_mut();
            l.dropped += 1;
            let ok = l.remove(self.id);
            if !ok && l.errors.len() < 8 {
                let e = format!("element {} was dropped twice (or never created)", self.id);
                l.errors.push(e);
            }
            ok
        });
        if ok {
            // the ledger vouches for it
            unsafe { ManuallyDrop::drop(&mut self.data) }
        }
    }
}
impl Clone for Owned {
    fn clone(&self) -> Owned {
        Owned::make(self.get())
    }
}
impl PartialEq for Owned {
    fn eq(&self, o: &Owned) -> bool {
        tick();
        self.get() == o.get()
    }
}
impl fmt::Debug for Owned {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.get().0)
    }
}
impl El for Owned {
    const NAME: &'static str = "Owned";
    const COMMUTES: bool = true;
    fn gen(r: &mut Rng) -> Owned {
        Owned::make(Zp::gen(r))
    }
    fn m_int(i: i8) -> Owned {
        Owned::make(Zp::m_int(i))
    }
    fn m_add(&self, o: &Owned) -> Owned {
        Owned::make(self.get().m_add(&o.get()))
    }
    fn m_sub(&self, o: &Owned) -> Owned {
        Owned::make(self.get().m_sub(&o.get()))
    }
    fn m_mul(&self, o: &Owned) -> Owned {
        Owned::make(self.get().m_mul(&o.get()))
    }
    fn m_conj(&self) -> Owned {
        Owned::make(self.get().m_conj())
    }
}
ring_ops!(Owned);
impl Ring for Owned {}
impl Div for Owned {
    type Output = Owned;
    fn div(self, o: Owned) -> Owned {
        self.m_div(&o)
    }
}
impl<'a> Div<&'a Owned> for Owned {
    type Output = Owned;
    fn div(self, o: &'a Owned) -> Owned {
        self.m_div(o)
    }
}
impl<'a, 'b> Div<&'a Owned> for &'b Owned {
    type Output = Owned;
    fn div(self, o: &'a Owned) -> Owned {
        self.m_div(o)
    }
}
impl Field for Owned {}
impl XEl for Owned {
    const RING: bool = true;
    fn m_div(&self, o: &Owned) -> Owned {
        Owned::make(self.get().m_div(&o.get()))
    }
    fn safe_divisor(self) -> Owned {
        if self.get().0 == 0 {
            Owned::make(Zp(1))
        } else {
            self
        }
    }
}
impl XEl for Complex<Owned> {
    const RING: bool = true;
    fn m_div(&self, o: &Self) -> Self {
        let n = o.re.m_mul(&o.re).m_add(&o.im.m_mul(&o.im)).safe_divisor();
        let p = self.m_mul(&o.m_conj());
        Complex { re: p.re.m_div(&n), im: p.im.m_div(&n) }
    }
    fn safe_divisor(self) -> Self {
        if self.re.get().0 == 0 && self.im.get().0 == 0 {
            Self::m_one()
        } else {
            self
        }
    }
}
