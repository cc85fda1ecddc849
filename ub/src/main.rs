//! C21. `gen` (compiled natively) enumerates the reachable tree states and lays transition tours
//! through them; `run` (interpreted by Miri, which stops at the first undefined behaviour)
//! executes them, reading everything the safe interface gives out.
mod cfg;
mod gen;
mod run;

pub type Op = u32;
pub const INS: u32 = 1;
pub const DEL: u32 = 2;
pub const WRITE: u32 = 3;
pub const RBA: u32 = 4;
pub const CLEAR: u32 = 5;
pub const CLONE: u32 = 6; // the clone takes the tree's place
pub const INTO: u32 = 7; // a clone is consumed: arg/64 entries from the front, arg%64 from the back, the rest abandoned
pub const READ: u32 = 8; // everything that can be read; arg: stride over the entries
pub const BULK: u32 = 9;
pub const ASC: u32 = 10;
pub const DESC: u32 = 11;
pub const MID: u32 = 12;
pub const DELASC: u32 = 13;
pub const DELDESC: u32 = 14;
pub const DELODD: u32 = 15;
pub const POKE: u32 = 16; // every operation of the alphabet on a clone, each of its calls into user code panicking in turn
pub const COLL: u32 = 17; // map and set made from arg items in several orders, read, united, consumed
pub const MUT: u32 = 18; // get_mut and get_mut_by_augmentation everywhere; arg: stride

pub fn op(c: u32, a: u32) -> Op {
    c << 24 | a
}
pub fn show(o: Op) -> String {
    let a = o & 0xff_ffff;
    match o >> 24 {
        INS => format!("insert({a})"),
        DEL => format!("remove({a})"),
        WRITE => format!("write({a})"),
        RBA => format!("remove_by_augmentation({a})"),
        CLEAR => "clear".into(),
        CLONE => "clone_and_drop_original".into(),
        INTO => format!("clone.into_iter({} from the front, {} from the back)", a / 64, a % 64),
        READ => "read_everything".into(),
        BULK => format!("bulk_load({a})"),
        ASC => format!("insert_ascending({a})"),
        DESC => format!("insert_descending({a})"),
        MID => format!("insert_middle_out({a})"),
        DELASC => format!("remove_smallest({a})"),
        DELDESC => format!("remove_largest({a})"),
        DELODD => "remove_every_other".into(),
        POKE => "panics_in_user_code".into(),
        COLL => format!("collect({a} items)"),
        MUT => "get_mut_everywhere".into(),
        c => format!("op{c}({a})"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
        // gen FILE quick|thorough [plain]; plain: without running the crate
        "gen" => gen::main(&a[1], a[2] == "thorough", a.len() > 3),
        "run" => run::main(),
        // one configuration, one history
        "one" => run::one(&a[1], &a[2..].iter().map(|x| x.parse().unwrap()).collect::<Vec<_>>()),
        "show" => println!("{}", a[1..].iter().map(|x| show(x.parse().unwrap())).collect::<Vec<_>>().join(" ")),
        "build" => {}
        _ => panic!("what?"),
    }
}
