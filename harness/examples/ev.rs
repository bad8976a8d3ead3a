use pulldown_cmark::*;use std::io::Read;
fn main(){let mut s=String::new();std::io::stdin().read_to_string(&mut s).unwrap();for (e,r) in Parser::new_ext(&s,markdown_fmt::pulldown_cmark_options!()).into_offset_iter(){println!("{r:?} {e:?} {:?}",&s[r.clone()]);}}
