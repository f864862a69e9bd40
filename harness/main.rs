// Replay and bounded-search harness. It is compiled into the crate itself (see the hook at the end of
// src/main.rs), so that it runs the real code, and it judges what that code does with oracles that
// share no code with it.

mod verif_harness {
    pub mod oracle {
        include!(concat!(env!("BCALC_VERIF_DIR"), "/oracle.rs"));
    }
    pub mod gen {
        include!(concat!(env!("BCALC_VERIF_DIR"), "/gen.rs"));
    }
    pub mod real {
        include!(concat!(env!("BCALC_VERIF_DIR"), "/real.rs"));
    }
    pub mod eval {
        include!(concat!(env!("BCALC_VERIF_DIR"), "/eval.rs"));
    }
    pub mod session {
        include!(concat!(env!("BCALC_VERIF_DIR"), "/session.rs"));
    }
    pub mod disk {
        include!(concat!(env!("BCALC_VERIF_DIR"), "/disk.rs"));
    }
    include!(concat!(env!("BCALC_VERIF_DIR"), "/driver.rs"));
}

fn main() {
    verif_harness::main();
}
