#[cfg(feature = "example")]
mod example;
mod gram;
#[cfg(any(feature = "mpar", feature = "mtok"))]
mod macros;
mod misc;
mod par;
mod re;
mod sx;
mod tok;

fn main() {
    let mut a = std::env::args().skip(1);
    let entry = a.next().expect("entry");
    let arg: u64 = a.next().expect("arg").parse().unwrap();
    let vals: Vec<u64> = a.map(|x| x.parse().unwrap()).collect();
    sx::R.with(|r| r.borrow_mut().vals = vals);
    match entry.as_str() {
        "tok" => tok::sx_entry_tok(arg),
        "outcome" => tok::sx_entry_outcome(arg),
        "warn" => tok::sx_entry_warn(arg),
        "table" => tok::sx_entry_table(arg),
        "drive" => tok::sx_entry_drive(arg),
        "rebuild" => misc::sx_entry_rebuild(arg),
        "ranges" => misc::sx_entry_ranges(arg),
        "finding" => misc::sx_entry_finding(arg),
        "parse" => par::sx_entry_parse(arg),
        "conflicts" => par::sx_entry_conflicts(arg),
        "policy" => par::sx_entry_policy(arg),
        "abort" => par::sx_entry_abort(arg),
        "valid" => par::sx_entry_valid(arg),
        "total" => par::sx_entry_total(arg),
        "renumber" => par::sx_entry_renumber(arg),
        "forms" => par::sx_entry_forms(arg),
        #[cfg(feature = "mpar")]
        "mpar" => macros::par::sx_entry_mpar(arg),
        #[cfg(feature = "mtok")]
        "mtok" => macros::tok::sx_entry_mtok(arg),
        #[cfg(feature = "example")]
        "example" => example::sx_entry_example(arg),
        _ => panic!("unknown entry"),
    }
    sx::finish()
}
