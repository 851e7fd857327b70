mod c20;
mod c21;
mod c22;
mod mach;
mod prog;

use vdriver::entry;

/// Directory for the files that this run and the processes it starts put in.
struct Scratch(Option<std::path::PathBuf>);

impl Drop for Scratch {
    fn drop(&mut self) {
        if let Some(d) = &self.0 {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}

fn main() {
    let scratch = if std::env::var_os("RVERIF_SCRATCH").is_none() {
        let d = vdriver::root().join(format!("target/scratch/{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        std::env::set_var("RVERIF_SCRATCH", &d);
        Some(d)
    } else {
        None
    };
    let scratch = Scratch(scratch);
    let code = vdriver::run(&[entry::<c20::C20>(), entry::<c21::C21>(), entry::<c22::C22>()]);
    drop(scratch);
    std::process::exit(code)
}
