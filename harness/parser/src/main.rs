use std::panic;
fn main() {
    panic::set_hook(Box::new(|_| {}));
    let mut seed: u64 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: u64 = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(100000);
    let frags = ["<","div",">","</","/>","<!--","-->","<!","DOCTYPE"," ","\n","{{","}}","{%","%}","{#","#}","-%}","{%-","a","b","(",")","[","]","{","}",",",":","|","?","=>","=","==","+","-","*","is","is not","not in","in","not","and","'","\"","\\","#{","1","1.5",".","..","...","block","endblock","if","elseif","else","endif","set","endset","for","endfor","include","with","only","sw_include","embed","endembed","macro","endmacro","same as","divisible by","import","from","as","use","props","component","endcomponent","cache","ttl","tags","endcache","script","style","textarea","input","@click","é","ludtwig-ignore","ludtwig-ignore-file","sw_icon","verbatim","endverbatim","apply","endapply","trans","endtrans","return","$","`","\r\n","sw_silent_feature_call","endsw_silent_feature_call","twig:a:b","autoescape","endautoescape","deprecated","null","true"];
    let mut rng = move || { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; seed };
    rng(); 
    let mut seen = std::collections::BTreeMap::<String,String>::new();
    for _ in 0..n {
        let len = 1 + (rng() % 9);
        let mut s = String::new();
        match rng()%4 {0=>s.push_str("{{ "),1=>s.push_str("{% "),2=>s.push_str("<a "),_=>{}}
        for _ in 0..len { s.push_str(frags[(rng() as usize >> 8) % frags.len()]); if rng()%2==0 {s.push(' ');} }
        let r = panic::catch_unwind(|| {
            let p = ludtwig_parser::parse(&s);
            let (t, e) = p.split();
            assert!(t.text() == s.as_str(), "not lossless");
            for e in e { let _ = e.expected_message(); }
        });
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let ent = seen.entry(m).or_insert(s.clone());
            if s.len() < ent.len() { *ent = s; }
        }
    }
    for (k,v) in seen { println!("{k:.200}\n   {v:?}"); }
}
