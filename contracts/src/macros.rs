/// One contract: a function over a `Src`, its Kani harness (a proof when no
/// loop bound is involved), and a registry entry.
#[macro_export]
macro_rules! contracts {
    ($( $(#[$at:meta])* $prop:ident $name:ident $mode:ident |$s:ident| $body:block )*) => {
        $(
            pub fn $name<S: $crate::src::Src>($s: &mut S) -> Option<()> { $body; Some(()) }
        )*
        pub fn registry<S: $crate::src::Src>() -> Vec<(&'static str, &'static str, &'static str, fn(&mut S) -> Option<()>)> {
            vec![ $( (stringify!($prop), stringify!($name), stringify!($mode), $name::<S>) ),* ]
        }
        #[cfg(kani)]
        mod proofs {
            $( contracts!(@k $mode $name [$(#[$at])*]); )*
        }
    };
    (@k kani $name:ident [$(#[$at:meta])*]) => {
        #[kani::proof] $(#[$at])* fn $name() { let mut s = $crate::src::Sym; let _ = super::$name(&mut s); }
    };
    (@k bounded $name:ident [$(#[$at:meta])*]) => {
        #[kani::proof] $(#[$at])* fn $name() { let mut s = $crate::src::Sym; let _ = super::$name(&mut s); }
    };
    (@k run $name:ident [$(#[$at:meta])*]) => { };
}

/// A named obligation.
#[macro_export]
macro_rules! check {
    ($s:expr, $c:expr, $w:literal) => {{
        let __c: bool = $c;
        #[cfg(kani)]
        kani::assert(__c, $w);
        #[cfg(not(kani))]
        $s.check(__c, $w);
    }};
}
