// A small checker: balanced tags, quoted attributes, no attribute twice, no stray '<' or '&', fixed arities.
#[allow(dead_code)]
fn check(s: &str) -> Result<(), String> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut stack: Vec<(String, usize)> = vec![("#".into(), 0)];
    let leaf = ["mi", "mn", "mo", "mtext", "annotation", "b", "i", "em", "code", "span", "s", "u", "a", "p"];
    let ent = |b: &[char], i: usize| -> bool {
        let t: String = b[i..b.len().min(i + 8)].iter().collect();
        ["&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#"].iter().any(|e| t.starts_with(e))
    };
    while i < b.len() {
        if b[i] == '<' {
            let end = b[i + 1] == '/';
            i += 1 + end as usize;
            let mut name = String::new();
            while i < b.len() && b[i].is_alphanumeric() { name.push(b[i]); i += 1; }
            if name.is_empty() { return Err(format!("bad tag at {i} in {s}")); }
            if end {
                if b.get(i) != Some(&'>') { return Err(format!("bad end tag {name}: {s}")); }
                i += 1;
                let (n, c) = stack.pop().unwrap();
                if n != name { return Err(format!("</{name}> closes <{n}>: {s}")); }
                let want = match name.as_str() {
                    "mfrac" | "msub" | "msup" | "mroot" | "munder" | "mover" => Some(2),
                    "msubsup" | "munderover" => Some(3), _ => None };
                if let Some(w) = want { if w != c { return Err(format!("<{name}> has {c} children: {s}")); } }
                continue;
            }
            let mut attrs: Vec<String> = vec![];
            loop {
                let mut sp = false;
                while i < b.len() && b[i].is_whitespace() { i += 1; sp = true; }
                if i >= b.len() { return Err(format!("open tag {name}: {s}")); }
                if b[i] == '>' || b[i] == '/' { break; }
                if !sp { return Err(format!("no space between attributes of {name}: {s}")); }
                let mut a = String::new();
                while i < b.len() && (b[i].is_alphanumeric() || b[i] == '-') { a.push(b[i]); i += 1; }
                if a.is_empty() || b.get(i) != Some(&'=') || b.get(i + 1) != Some(&'"') { return Err(format!("bad attribute {a} of {name}: {s}")); }
                i += 2;
                while i < b.len() && b[i] != '"' {
                    if b[i] == '<' || (b[i] == '&' && !ent(&b, i)) { return Err(format!("bad character in {a}: {s}")); }
                    i += 1;
                }
                i += 1;
                if attrs.contains(&a) { return Err(format!("attribute {a} twice on {name}: {s}")); }
                attrs.push(a);
            }
            let top = stack.last_mut().unwrap();
            top.1 += 1;
            let p = top.0.clone();
            if (name == "mtr") != (p == "mtable") || (name == "mtd") != (p == "mtr") { return Err(format!("<{name}> inside <{p}>: {s}")); }
            if b[i] == '/' { if b.get(i + 1) != Some(&'>') { return Err(format!("bad slash: {s}")); } i += 2; }
            else { i += 1; stack.push((name, 0)); }
        } else {
            if b[i] == '&' && !ent(&b, i) { return Err(format!("stray & at {i}: {s}")); }
            if !b[i].is_whitespace() && !leaf.contains(&stack.last().unwrap().0.as_str()) { return Err(format!("text {:?} in <{}>: {s}", b[i], stack.last().unwrap().0)); }
            i += 1;
        }
    }
    if stack.len() != 1 || stack[0].1 != 1 { return Err(format!("not one element: {s}")); }
    Ok(())
}
