//! `gen_accept TIER`: prints all P06 items as JSON lines; the last line has the model statistics.

fn main() {
    let thorough = std::env::args().nth(1).unwrap() == "thorough";
    let (items, (pairs, paths)) = model::accept::items(thorough);
    for i in &items {
        println!("{}", serde_json::json!({"src": i.src, "accept": i.accept, "why": i.why}));
    }
    println!("{}", serde_json::json!({"pairs": pairs, "paths": paths}));
}
