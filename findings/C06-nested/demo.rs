// the four open findings of C06: row index entries of nested columns are not at multiples of the stride in rows
use orc_format::schema::{Field, Schema};
use orc_format::writer::data::GenericData;
use orc_format::writer::{Config, Writer};

fn main() {
    let dir = std::env::args().nth(1).unwrap();
    let f = |n: &str, s: Schema| Field(n.to_owned(), s);
    let schema = Schema::Struct(vec![
        f("list", Schema::List(Box::new(Schema::Long))),
        f("map", Schema::Map(Box::new(Schema::Long), Box::new(Schema::Long))),
        f("union", Schema::Union(vec![Schema::Long, Schema::Long])),
        f("struct", Schema::Struct(vec![f("x", Schema::Long)])),
    ]);
    let c = Config::new().with_row_index_stride(2);
    let mut w = Writer::new(std::fs::File::create(format!("{}/nested.orc", dir)).unwrap(), &schema, c).unwrap();
    for i in 0..4 {
        let root = w.data().unwrap_struct();
        root.write();
        let l = root.child(0).unwrap_list();
        l.write(3);
        for k in 0..3 { l.child().unwrap_long().write(i * 3 + k); }
        let m = root.child(1).unwrap_map();
        m.write(3);
        for k in 0..3 { m.keys().unwrap_long().write(k); m.values().unwrap_long().write(k); }
        let u = root.child(2).unwrap_union();
        u.write(0);
        u.child(0).unwrap_long().write(i);
        let s = root.child(3).unwrap_struct();
        if i % 2 == 0 { s.write_null(); } else { s.write(); s.child(0).unwrap_long().write(i); }
    }
    w.write_batch(4).unwrap();
    w.finish().unwrap();
}
