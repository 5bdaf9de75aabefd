//! Writer for TSPLIB-XML documents: a model of the content, a seeded layout, corruptions.
use engine::{Gen, Inst};
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
pub struct Doc {
    pub name: String,
    pub source: String,
    pub description: String,
    pub double_precision: u32,
    pub ignored_digits: u32,
    /// edges of each vertex: target and the text of the cost
    pub vertices: Vec<Vec<(usize, String)>>,
    /// 0 is the plain layout
    pub style: u64,
}

fn decimal(g: &mut Gen) -> String {
    let digits = |g: &mut Gen, k: usize| (0..k).map(|_| char::from(b'0' + g.below(10) as u8)).collect::<String>();
    let int = {
        let k = g.range(1, 6);
        let k = if g.chance(0.1) { g.range(7, 25) } else { k };
        digits(g, k)
    };
    let mut s = int;
    if g.chance(0.7) {
        let k = if g.chance(0.2) { g.range(15, 30) } else { g.range(1, 8) };
        s.push('.');
        s.push_str(&digits(g, k));
    }
    if g.chance(0.4) {
        let e = g.range(0, 40) as i32 - 20;
        s.push(if g.bool() { 'e' } else { 'E' });
        match g.below(3) {
            0 => s.push_str(&format!("{e}")),
            1 => s.push_str(&format!("{}{:02}", if e < 0 { "-" } else { "+" }, e.abs())),
            _ => s.push_str(&format!("{e:+}")),
        }
    }
    s
}

/// other ways to write exactly the same double
pub fn notation(g: &mut Gen, x: f64) -> String {
    match g.below(5) {
        0 => format!("{x:e}"),
        1 => format!("{x:.17e}"),
        2 => format!("{x:E}"),
        3 => {
            // two-digit exponent with sign, as in the TSPLIB files
            let s = format!("{x:.16e}");
            let (m, e) = s.split_once('e').unwrap();
            let e: i32 = e.parse().unwrap();
            format!("{m}e{}{:02}", if e < 0 { "-" } else { "+" }, e.abs())
        }
        _ => format!("{x}"),
    }
}

const WORDS: &[&str] = &["berlin52", "a", "Umgebung von Göttingen", "x < y & z > 0", "\"quoted\" 'text'", "gh:lquenti/walky", "日本 東京", "tour;of;things", "a  b", "1", "-", "]]", "</graph>", "<edge cost=\"1\">0</edge>", "</travellingSalesmanProblemInstance>", "<!-- no comment -->", "&amp;"];

fn words(g: &mut Gen) -> String {
    let k = g.range(1, 3);
    let mut s = String::new();
    for i in 0..k {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(g.pick(WORDS));
    }
    s
}

impl Doc {
    /// a document describing `inst`; with `free_text`, the distances are replaced by random decimal texts
    pub fn describe(g: &mut Gen, inst: &Inst, free_text: bool) -> Doc {
        let n = inst.n;
        let mut texts = vec![vec![String::new(); n]; n];
        for i in 0..n {
            for j in i + 1..n {
                if free_text {
                    let t = decimal(g);
                    let x: f64 = t.parse().unwrap();
                    texts[j][i] = if g.chance(0.5) { t.clone() } else { notation(g, x) };
                    texts[i][j] = t;
                } else {
                    texts[i][j] = notation(g, inst.d(i, j));
                    texts[j][i] = notation(g, inst.d(i, j));
                }
            }
        }
        let shuffled = g.chance(0.5);
        let vertices = (0..n)
            .map(|i| {
                let mut v: Vec<(usize, String)> = (0..n).filter(|&j| j != i).map(|j| (j, texts[i][j].clone())).collect();
                if shuffled {
                    g.shuffle(&mut v);
                }
                v
            })
            .collect();
        Doc {
            name: words(g),
            source: words(g),
            description: words(g),
            double_precision: if g.chance(0.2) { g.u64() as u32 } else { g.range(0, 20) as u32 },
            ignored_digits: if g.chance(0.2) { g.u64() as u32 } else { g.range(0, 5) as u32 },
            vertices,
            style: if g.chance(0.2) { 0 } else { g.u64() | 1 },
        }
    }

    /// plain document for `inst`
    pub fn plain(inst: &Inst) -> Doc {
        Doc {
            name: "n".into(),
            source: "s".into(),
            description: "d".into(),
            double_precision: 15,
            ignored_digits: 0,
            vertices: (0..inst.n)
                .map(|i| (0..inst.n).filter(|&j| j != i).map(|j| (j, format!("{}", inst.d(i, j)))).collect())
                .collect(),
            style: 0,
        }
    }

    pub fn text(&self) -> String {
        let mut g = Gen::new(self.style);
        let g = &mut g;
        let fancy = self.style != 0;
        let escape = |g: &mut Gen, s: &str| -> String {
            let mut o = String::new();
            for c in s.chars() {
                match c {
                    '<' => o.push_str("&lt;"),
                    '&' => o.push_str(if fancy && g.bool() { "&#38;" } else { "&amp;" }),
                    '>' => o.push_str("&gt;"),
                    '"' if fancy && g.bool() => o.push_str("&quot;"),
                    '\'' if fancy && g.bool() => o.push_str("&apos;"),
                    c if fancy && !c.is_ascii() && g.chance(0.3) => o.push_str(&format!("&#x{:X};", c as u32)),
                    c => o.push(c),
                }
            }
            o
        };
        let mode = if fancy { g.below(4) } else { 0 };
        let comments = fancy && g.bool();
        let quote_mode = if fancy { g.below(3) } else { 0 };
        let pad_text = fancy && g.chance(0.3);
        // rarer constructs, drawn apart so that the rest of the layout stays as it was
        let rare = &mut Gen::new(self.style ^ 0x5eed);
        let rarely = fancy && rare.chance(0.3);
        let mut o = String::new();
        // white space between elements
        let gap = |g: &mut Gen, o: &mut String, depth: usize| {
            match mode {
                0 => {
                    o.push('\n');
                    o.push_str(&"  ".repeat(depth));
                }
                1 => {}
                2 => {
                    o.push_str("\r\n");
                    o.push_str(&"\t".repeat(depth));
                }
                _ => {
                    for _ in 0..g.below(4) {
                        o.push(*g.pick(&[' ', '\n', '\t', '\r']));
                    }
                }
            }
            if comments && g.chance(0.15) {
                o.push_str(g.pick(&["<!-- a comment -->", "<!---->", "<!-- <edge cost=\"1\">0</edge> -->", "<!-- multi\nline -->", "<!-- </graph> </travellingSalesmanProblemInstance> -->", "<!-- <vertex> ]]> & \" ' -->"]));
                if g.bool() {
                    o.push('\n');
                }
            }
        };
        if rarely && rare.chance(0.2) {
            // byte order mark
            o.push('\u{feff}');
        }
        if fancy && g.chance(0.5) {
            o.push_str(g.pick(&[
                "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\" ?>",
                "<?xml version=\"1.0\"?>",
                "<?xml version='1.0' encoding='utf-8'?>",
            ]));
            o.push('\n');
        }
        if comments {
            o.push_str("<!-- made by a test -->");
        }
        if rarely && rare.chance(0.3) {
            o.push_str(rare.pick(&[
                "<!DOCTYPE travellingSalesmanProblemInstance SYSTEM \"TSP.dtd\">\n",
                "<!DOCTYPE travellingSalesmanProblemInstance>",
                "<?xml-stylesheet type=\"text/xsl\" href=\"tsp.xsl\"?>\n",
            ]));
        }
        o.push_str(match () {
            _ if rarely && rare.chance(0.3) => "<travellingSalesmanProblemInstance xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:noNamespaceSchemaLocation=\"tsp.xsd\">",
            _ => "<travellingSalesmanProblemInstance>",
        });
        let field = |rare: &mut Gen, g: &mut Gen, o: &mut String, tag: &str, text: &str| {
            gap(g, o, 1);
            let end = if fancy && g.chance(0.1) { " " } else { "" };
            let (a, b) = if pad_text { (" ", "\n ") } else { ("", "") };
            let whole = rarely && !text.contains("]]>") && rare.chance(0.3);
            let text = if whole && !text.trim().is_empty() { format!("<![CDATA[{text}]]>") } else { escape(g, text) };
            let (a, b) = if whole { ("", "") } else { (a, b) };
            let a = if rarely && rare.chance(0.1) { "<!-- text follows -->" } else { a };
            o.push_str(&format!("<{tag}{end}>{a}{text}{b}</{tag}{end}>"));
        };
        field(rare, g, &mut o, "name", &self.name);
        field(rare, g, &mut o, "source", &self.source);
        field(rare, g, &mut o, "description", &self.description);
        field(rare, g, &mut o, "doublePrecision", &self.double_precision.to_string());
        field(rare, g, &mut o, "ignoredDigits", &self.ignored_digits.to_string());
        gap(g, &mut o, 1);
        o.push_str("<graph>");
        for v in &self.vertices {
            gap(g, &mut o, 2);
            o.push_str("<vertex>");
            for (to, cost) in v {
                gap(g, &mut o, 3);
                let q = match quote_mode {
                    0 => '"',
                    1 => '\'',
                    _ => *g.pick(&['"', '\'']),
                };
                let s = if fancy && g.chance(0.1) { *g.pick(&["  ", "\n", "\t"]) } else { " " };
                let eq = if fancy && g.chance(0.1) { " = " } else { "=" };
                let (a, b) = if pad_text { (" ", "\n") } else { ("", "") };
                let to = match rare.below(12) {
                    0 if rarely => format!("<![CDATA[{to}]]>"),
                    1 if rarely => format!("&#{};{}", 48 + to.to_string().as_bytes()[0] - b'0', &to.to_string()[1..]),
                    2 if rarely => format!("<!-- to -->{to}"),
                    3 if rarely => format!("{to}<?to?>"),
                    _ => to.to_string(),
                };
                o.push_str(&format!("<edge{s}cost{eq}{q}{cost}{q}>{a}{to}{b}</edge>"));
            }
            gap(g, &mut o, 2);
            o.push_str("</vertex>");
        }
        gap(g, &mut o, 1);
        o.push_str("</graph>");
        gap(g, &mut o, 0);
        o.push_str("</travellingSalesmanProblemInstance>");
        if fancy {
            gap(g, &mut o, 0);
        } else {
            o.push('\n');
        }
        o
    }
}
