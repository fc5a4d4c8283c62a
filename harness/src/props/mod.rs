mod behaviour;
mod hostile;
mod platform;
mod structure;

use crate::ctx::Ctx;
use crate::lgen::{program, Focus};
use crate::rng::Rng;

pub fn run(cx: &Ctx) -> bool {
    match cx.prop.as_str() {
        "C01" => hostile::totality(cx),
        "C02" => hostile::memory(cx),
        "C03" => structure::well_formed(cx),
        "C04" => structure::preserves_51(cx),
        "C05" => structure::strings(cx),
        "C06" => structure::numbers(cx),
        "C07" => structure::identity(cx),
        "C08" => structure::paths(cx),
        "C09" => behaviour::programs_50(cx),
        "C10" => behaviour::jumps(cx),
        "C11" => behaviour::tables(cx),
        "C12" => behaviour::loops(cx),
        "C13" => behaviour::varargs(cx),
        "C14" => behaviour::verifier(cx),
        "C15" => structure::layouts(cx),
        "C16" => structure::specifications(cx),
        "C17" => hostile::errors(cx),
        "C18" => behaviour::temporaries(cx),
        "C19" => behaviour::debug_info(cx),
        "C20" => platform::pure(cx),
        "C21" => platform::hosts(cx),
        "C22" => platform::serde(cx),
        "C23" => behaviour::stripped(cx),
        "C24" => behaviour::defaults(cx),
        "C25" => behaviour::closures(cx),
        "C26" => structure::irrelevant(cx),
        _ => return false,
    }
    true
}

pub fn show_program(args: &[String]) -> i32 {
    let get = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let mut rng = Rng::new(get(0), "gen", get(1));
    let focus = [
        Focus::General,
        Focus::Tables,
        Focus::Loops,
        Focus::Varargs,
        Focus::Jumps,
        Focus::Closures,
        Focus::Constants,
    ][get(3) as usize % 7];
    print!("{}", program(&mut rng, get(2) == 1, focus, 60, 32).source);
    0
}
