//! Values.tla: codes of icons, obfuscation types, colors and string names.
use crate::tables::ICONS;
use crate::util::Rng;
use crate::{Ctx, Out};
use kpdb::*;
use serde_json::{json, Value};

/// A text of the specification with characters of its classes.
pub fn text(t: &Value, r: &mut Rng) -> String {
    t.as_array()
        .map(|a| a.as_slice())
        .unwrap_or(&[])
        .iter()
        .map(|c| match c.as_str().unwrap() {
            "space" => *r.pick(&[' ', '\t', '\u{a0}', '\n']),
            "nul" => *r.pick(&['\0', '\u{1}', '\u{7f}']),
            "two bytes" => *r.pick(&['é', 'ß', 'а', 'Ω', '\u{80}', 'ª', '²']),
            "three bytes" => *r.pick(&['漢', '€', '\u{200b}', 'ⅷ', '①', '\u{feff}', '￿']),
            "four bytes" => *r.pick(&['🔑', '𝟘', '𝐚', '\u{10ffff}']),
            "digit" => *r.pick(&['٣', '९', '๕', '໐', '߂']),
            "wide digit" => *r.pick(&['０', '９', '５']),
            "wide letter" => *r.pick(&['Ａ', 'ｆ', 'Ｓ', 'ｔ']),
            "mark" => *r.pick(&['\u{301}', '\u{308}', '\u{20dd}']),
            s => s.chars().next().unwrap(),
        })
        .collect()
}

fn obf_name(o: Obfuscation) -> String {
    match o {
        Obfuscation::None => "None".into(),
        Obfuscation::UseClipboard => "UseClipboard".into(),
    }
}

fn icon_of(name: &str) -> Icon {
    *ICONS.iter().find(|i| format!("{:?}", i) == name).expect("icon")
}

fn obf_of(name: &str) -> Obfuscation {
    if name == "None" {
        Obfuscation::None
    } else {
        Obfuscation::UseClipboard
    }
}

fn key_of(name: &str, t: &str) -> StringKey {
    match name {
        "Notes" => StringKey::Notes,
        "Password" => StringKey::Password,
        "Title" => StringKey::Title,
        "Url" => StringKey::Url,
        "Username" => StringKey::Username,
        _ => StringKey::Other(t.into()),
    }
}

pub fn rgb(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}

fn same(what: &str, expected: Value, got: Value) -> Out {
    if expected == got {
        Ok(())
    } else {
        Err(format!("{}: expected {} but got {}", what, expected, got))
    }
}

pub fn run(case: &Value, ctx: &mut Ctx) -> Out {
    let op = case["op"].as_str().unwrap();
    let (arg, out, back) = (&case["arg"], &case["out"], &case["back"]);
    ctx.add(op, 1);
    match op {
        "icon code" => {
            let n = arg.as_i64().unwrap() as i32;
            match Icon::from_i32(n) {
                Err(_) => same(&format!("Icon::from_i32({})", n), out.clone(), json!("error")),
                Ok(i) => {
                    same(&format!("Icon::from_i32({})", n), out.clone(), json!(format!("{:?}", i)))?;
                    same(&format!("{:?}.to_i32()", i), back.clone(), json!(i.to_i32()))
                }
            }
        }
        "obfuscation code" => {
            let n = arg.as_i64().unwrap() as i32;
            match Obfuscation::from_i32(n) {
                Err(_) => same(&format!("Obfuscation::from_i32({})", n), out.clone(), json!("error")),
                Ok(i) => {
                    same(&format!("Obfuscation::from_i32({})", n), out.clone(), json!(obf_name(i)))?;
                    same(&format!("{:?}.to_i32()", i), back.clone(), json!(i.to_i32()))
                }
            }
        }
        "icon" => {
            let i = icon_of(arg.as_str().unwrap());
            same(&format!("{:?}.to_i32()", i), out.clone(), json!(i.to_i32()))?;
            match Icon::from_i32(i.to_i32()) {
                Ok(j) if i == j => Ok(()),
                x => Err(format!("the code of {:?} is decoded as {:?}", i, x.map_err(|e| e.to_string()))),
            }
        }
        "obfuscation" => {
            let i = obf_of(arg.as_str().unwrap());
            same(&format!("{:?}.to_i32()", i), out.clone(), json!(i.to_i32()))?;
            match Obfuscation::from_i32(i.to_i32()) {
                Ok(j) if i == j => Ok(()),
                x => Err(format!("the code of {:?} is decoded as {:?}", i, x.map_err(|e| e.to_string()))),
            }
        }
        "color text" => {
            let t = text(arg, &mut ctx.rng);
            let want = rgb(out);
            match Color::from_hex_string(&t) {
                Err(_) if want.is_empty() => Ok(()),
                Err(e) => Err(format!("from_hex_string({:?}) gives the error {}", t, e)),
                Ok(c) if want.is_empty() => Err(format!("from_hex_string({:?}) gives {:?}", t, c)),
                Ok(c) => {
                    same(&format!("from_hex_string({:?})", t), json!(want), json!([c.red, c.green, c.blue]))?;
                    same(&format!("the code of {:?}", c), json!(text(back, &mut ctx.rng)), json!(c.to_hex_string()))
                }
            }
        }
        "color" => {
            let v = rgb(arg);
            let c = Color { red: v[0], green: v[1], blue: v[2] };
            same(&format!("the code of {:?}", c), json!(text(out, &mut ctx.rng)), json!(c.to_hex_string()))?;
            match Color::from_hex_string(&c.to_hex_string()) {
                Ok(d) if d == c => Ok(()),
                x => Err(format!("the code of {:?} is decoded as {:?}", c, x.map_err(|e| e.to_string()))),
            }
        }
        "name" => {
            let t = text(arg, &mut ctx.rng);
            let want = key_of(out.as_str().unwrap(), &t);
            let got = StringKey::from_string(&t);
            if got != want {
                return Err(format!("from_string({:?}): expected {:?} but got {:?}", t, want, got));
            }
            let code = if out == &json!("Other") { t.clone() } else { text(back, &mut ctx.rng) };
            same(&format!("the text of {:?}", got), json!(code), json!(got.to_string()))?;
            // a custom name keeps its text also when it is made directly
            same("a custom name", json!(t), json!(StringKey::Other(t.clone()).to_string()))
        }
        _ => Err(format!("operation {}", op)),
    }
}

/// Every number of a range, every color of a stripe: what Values.tla says of them, in closed form.
pub fn sweep(case: &Value, ctx: &mut Ctx) -> Out {
    let at = |k: &str| case[k].as_i64().unwrap();
    match case["kind"].as_str().unwrap() {
        "numbers" => {
            for n in at("from")..at("to") {
                let n = n as i32;
                if (0..69).contains(&n) != Icon::from_i32(n).is_ok() {
                    return Err(format!("Icon::from_i32({})", n));
                }
                if (0..2).contains(&n) != Obfuscation::from_i32(n).is_ok() {
                    return Err(format!("Obfuscation::from_i32({})", n));
                }
            }
            ctx.add("numbers", (at("to") - at("from")) as u64);
        }
        "characters" => {
            // every character at every place of a standard name, and before and after it
            let mut n = 0;
            for c in (at("from") as u32..at("to") as u32).filter_map(char::from_u32) {
                let mut one = |t: String, want: StringKey| {
                    n += 1;
                    let got = StringKey::from_string(&t);
                    if got != want {
                        return Err(format!("from_string({:?}): expected {:?} but got {:?}", t, want, got));
                    }
                    let back = if let StringKey::Other(_) = want { t } else { StringKey::from_string(&t.to_ascii_lowercase()).to_string() };
                    if got.to_string() != back {
                        return Err(format!("the text of {:?} is {:?}", got, got.to_string()));
                    }
                    Ok(())
                };
                one(c.to_string(), StringKey::Other(c.to_string()))?;
                for name in ["Notes", "Password", "Title", "URL", "UserName"] {
                    let key = key_of(if name == "URL" { "Url" } else if name == "UserName" { "Username" } else { name }, name);
                    for i in 0..name.len() {
                        let t = format!("{}{}{}", &name[..i], c, &name[i + 1..]);
                        let same = t.eq_ignore_ascii_case(name);
                        one(t.clone(), if same { key.clone() } else { StringKey::Other(t) })?;
                    }
                    for t in [format!("{}{}", name, c), format!("{}{}", c, name), format!("{}{}{}", &name[..2], c, &name[2..])] {
                        one(t.clone(), StringKey::Other(t))?;
                    }
                }
            }
            ctx.add("names", n);
        }
        _ => {
            for n in at("from")..at("to") {
                let c = Color { red: (n >> 16) as u8, green: (n >> 8) as u8, blue: n as u8 };
                let t = c.to_hex_string();
                if t != format!("#{:06x}", n) || Color::from_hex_string(&t).ok() != Some(c.clone()) {
                    return Err(format!("the color {:?} has the code {:?}", c, t));
                }
                match Color::from_hex_string(&t.to_uppercase()) {
                    Ok(d) if d == c => {}
                    _ => return Err(format!("the code {:?} is not read", t.to_uppercase())),
                }
            }
            ctx.add("colors", (at("to") - at("from")) as u64);
        }
    }
    Ok(())
}
