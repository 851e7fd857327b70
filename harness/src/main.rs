mod alloc;
mod props;
mod refsim;
mod qirops;
mod simops;

use vdriver::entry;

#[global_allocator]
static WATCH: alloc::Watch = alloc::Watch;

fn main() {
    vdriver::main_with(&[
        entry::<props::sim::C01>(),
        entry::<props::sim::C02>(),
        entry::<props::sim::C03>(),
        entry::<props::sim::C04>(),
        entry::<props::sim2::C05>(),
        entry::<props::sim2::C06>(),
        entry::<props::sim2::C07>(),
        entry::<props::qir::C08>(),
        entry::<props::qir::C09>(),
        entry::<props::qir::C10>(),
        entry::<props::qir::C11>(),
        entry::<props::mem::C12>(),
        entry::<props::mem::C13>(),
        entry::<props::funcs::C14>(),
        entry::<props::ints::C15>(),
        entry::<props::text::C16>(),
        entry::<props::text::C17>(),
        entry::<props::text::C18>(),
        entry::<props::text::C19>(),
    ])
}
