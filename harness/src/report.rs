//! Reads the scores out of the text a score prints, as a user would.

use std::fmt::{Debug, Display};

/// One section of the printed score.
#[derive(Clone, Debug)]
pub struct Section {
    pub mode: String,
    pub labels: Vec<String>,
    pub thresholds: Vec<f64>,
    pub ap: Vec<f64>,
    pub aph: Vec<f64>,
    pub map: f64,
    pub maph: f64,
    /// How exact ap and aph are.
    pub tol: f64,
}

fn number(text: &str) -> Result<f64, String> {
    text.trim()
        .parse::<f64>()
        .map_err(|_| format!("{:?} is not a number", text))
}

/// The sections as printed, to three decimals.
pub fn parse(text: &str) -> Result<Vec<Section>, String> {
    let fail = |what: &str| format!("printed score: {}\n{}", what, text);
    let mut sections: Vec<Section> = Vec::new();
    for line in text.lines() {
        let t = line.trim();
        if t.starts_with('[') && t.ends_with(']') {
            sections.push(Section {
                mode: t[1..t.len() - 1].to_string(),
                labels: vec![],
                thresholds: vec![],
                ap: vec![],
                aph: vec![],
                map: f64::INFINITY,
                maph: f64::INFINITY,
                tol: 0.00051,
            });
            continue;
        }
        if t.is_empty() {
            continue;
        }
        let section = sections.last_mut().ok_or_else(|| fail("text before the first section"))?;
        if t.starts_with('|') {
            let cells: Vec<&str> = t.trim_matches('|').split('|').map(|c| c.trim()).collect();
            let cells: Vec<&str> = cells
                .iter()
                .enumerate()
                .filter(|(i, c)| *i == 0 || !c.is_empty())
                .map(|(_, c)| *c)
                .collect();
            match cells[0] {
                "Label" => {
                    for cell in &cells[1..] {
                        let open = cell.find('(').ok_or_else(|| fail("no threshold of a label"))?;
                        let close = cell.rfind(')').ok_or_else(|| fail("no threshold of a label"))?;
                        section.labels.push(cell[..open].trim().to_string());
                        section.thresholds.push(number(&cell[open + 1..close]).map_err(|e| fail(&e))?);
                    }
                }
                "AP" | "APH" => {
                    let values = cells[1..]
                        .iter()
                        .map(|c| number(c))
                        .collect::<Result<Vec<f64>, String>>()
                        .map_err(|e| fail(&e))?;
                    let slot = if cells[0] == "AP" { &mut section.ap } else { &mut section.aph };
                    if !slot.is_empty() {
                        return Err(fail("a row is printed twice"));
                    }
                    *slot = values;
                }
                _ => return Err(fail("unknown row")),
            }
        } else {
            // means: "mAP: 0.500 mAPH: 0.400"
            let words: Vec<&str> = t.split_whitespace().collect();
            for pair in words.chunks(2) {
                match pair {
                    ["mAP:", v] => section.map = number(v).map_err(|e| fail(&e))?,
                    ["mAPH:", v] => section.maph = number(v).map_err(|e| fail(&e))?,
                    _ => return Err(fail("unknown text")),
                }
            }
        }
    }
    for s in &sections {
        if s.labels.is_empty() || s.ap.len() != s.labels.len() || s.aph.len() != s.labels.len() {
            return Err(fail("a section does not have one AP and one APH for each label"));
        }
    }
    Ok(sections)
}

/// All lists that follow the key in the debug output.
fn lists(debug: &str, key: &str) -> Option<Vec<Vec<f64>>> {
    let pattern = format!("\"{}\": [", key);
    let mut rest = debug;
    let mut found = Vec::new();
    while let Some(at) = rest.find(&pattern) {
        rest = &rest[at + pattern.len()..];
        let end = rest.find(']')?;
        let list = rest[..end]
            .split(',')
            .map(|v| v.trim().parse::<f64>().ok())
            .collect::<Option<Vec<f64>>>()?;
        found.push(list);
        rest = &rest[end..];
    }
    Some(found)
}

/// The scores as exactly as they can be observed: the printed ones, refined by the debug output
/// where that agrees with what is printed.
pub fn observe<T: Display + Debug>(score: &T) -> Result<Vec<Section>, String> {
    let mut sections = parse(&format!("{}", score))?;
    let debug = format!("{:?}", score);
    if let (Some(ap), Some(aph)) = (lists(&debug, "AP"), lists(&debug, "APH")) {
        let fits = |exact: &Vec<f64>, shown: &Vec<f64>| {
            exact.len() == shown.len()
                && exact.iter().zip(shown).all(|(e, s)| {
                    (e.is_nan() && s.is_nan()) || (e - s).abs() <= 0.000501
                })
        };
        if ap.len() == sections.len()
            && aph.len() == sections.len()
            && sections
                .iter()
                .enumerate()
                .all(|(i, s)| fits(&ap[i], &s.ap) && fits(&aph[i], &s.aph))
        {
            for (i, s) in sections.iter_mut().enumerate() {
                s.ap = ap[i].clone();
                s.aph = aph[i].clone();
                s.tol = 1e-9;
            }
        }
    }
    Ok(sections)
}

/// Equal up to the tolerance, where NaN equals NaN.
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol
}
