// generated by tools/mkterms.py from the installed terminfo database
use crate::scen::K;
pub struct Term { pub name: &'static str, pub bold: bool, pub sitm: bool, pub rev: bool, pub smul: bool, pub setaf: bool, pub setab: bool, pub smkx: bool, pub rmkx: bool, pub smcup: bool, pub rmcup: bool, pub csr: bool, pub home: bool, pub cup: bool, pub clear: bool, pub el: bool, pub ed: bool, pub cuu1: bool, pub cuu: bool, pub cud: bool, pub cub1: bool, pub cub: bool, pub cuf1: bool, pub cuf: bool, pub civis: bool, pub cnorm: bool, pub sgr0: bool, pub keys: &'static [(&'static [u8], K)] }
impl Term { pub fn xterm(&self)->bool { self.name=="xterm"||self.name.starts_with("xterm-") } }
pub static TERMS: &[Term] = &[
Term { name: "xterm", bold: true, sitm: true, rev: true, smul: true, setaf: true, setab: true, smkx: true, rmkx: true, smcup: true, rmcup: true, csr: true, home: true, cup: true, clear: true, el: true, ed: true, cuu1: true, cuu: true, cud: true, cub1: true, cub: true, cuf1: true, cuf: true, civis: true, cnorm: true, sgr0: true, keys: &[(b"\x1b\x4f\x41", K::Up), (b"\x1b\x4f\x42", K::Down), (b"\x1b\x4f\x44", K::Left), (b"\x1b\x4f\x43", K::Right), (b"\x1b\x4f\x48", K::Home), (b"\x1b\x4f\x46", K::End), (b"\x1b\x5b\x36\x7e", K::PageDown), (b"\x1b\x5b\x35\x7e", K::PageUp), (b"\x1b\x5b\x33\x7e", K::Delete), (b"\x1b\x5b\x32\x7e", K::Insert), (b"\x1b\x4f\x50", K::F(1)), (b"\x1b\x4f\x51", K::F(2)), (b"\x1b\x4f\x52", K::F(3)), (b"\x1b\x4f\x53", K::F(4)), (b"\x1b\x5b\x31\x35\x7e", K::F(5)), (b"\x1b\x5b\x31\x37\x7e", K::F(6)), (b"\x1b\x5b\x31\x38\x7e", K::F(7)), (b"\x1b\x5b\x31\x39\x7e", K::F(8)), (b"\x1b\x5b\x32\x30\x7e", K::F(9)), (b"\x1b\x5b\x32\x31\x7e", K::F(10)), (b"\x1b\x5b\x32\x33\x7e", K::F(11)), (b"\x1b\x5b\x32\x34\x7e", K::F(12))] },
Term { name: "xterm-256color", bold: true, sitm: true, rev: true, smul: true, setaf: true, setab: true, smkx: true, rmkx: true, smcup: true, rmcup: true, csr: true, home: true, cup: true, clear: true, el: true, ed: true, cuu1: true, cuu: true, cud: true, cub1: true, cub: true, cuf1: true, cuf: true, civis: true, cnorm: true, sgr0: true, keys: &[(b"\x1b\x4f\x41", K::Up), (b"\x1b\x4f\x42", K::Down), (b"\x1b\x4f\x44", K::Left), (b"\x1b\x4f\x43", K::Right), (b"\x1b\x4f\x48", K::Home), (b"\x1b\x4f\x46", K::End), (b"\x1b\x5b\x36\x7e", K::PageDown), (b"\x1b\x5b\x35\x7e", K::PageUp), (b"\x1b\x5b\x33\x7e", K::Delete), (b"\x1b\x5b\x32\x7e", K::Insert), (b"\x1b\x4f\x50", K::F(1)), (b"\x1b\x4f\x51", K::F(2)), (b"\x1b\x4f\x52", K::F(3)), (b"\x1b\x4f\x53", K::F(4)), (b"\x1b\x5b\x31\x35\x7e", K::F(5)), (b"\x1b\x5b\x31\x37\x7e", K::F(6)), (b"\x1b\x5b\x31\x38\x7e", K::F(7)), (b"\x1b\x5b\x31\x39\x7e", K::F(8)), (b"\x1b\x5b\x32\x30\x7e", K::F(9)), (b"\x1b\x5b\x32\x31\x7e", K::F(10)), (b"\x1b\x5b\x32\x33\x7e", K::F(11)), (b"\x1b\x5b\x32\x34\x7e", K::F(12))] },
Term { name: "linux", bold: true, sitm: false, rev: true, smul: true, setaf: true, setab: true, smkx: false, rmkx: false, smcup: false, rmcup: false, csr: true, home: true, cup: true, clear: true, el: true, ed: true, cuu1: true, cuu: true, cud: true, cub1: true, cub: true, cuf1: true, cuf: true, civis: true, cnorm: true, sgr0: true, keys: &[(b"\x1b\x5b\x41", K::Up), (b"\x1b\x5b\x42", K::Down), (b"\x1b\x5b\x44", K::Left), (b"\x1b\x5b\x43", K::Right), (b"\x1b\x5b\x31\x7e", K::Home), (b"\x1b\x5b\x34\x7e", K::End), (b"\x1b\x5b\x36\x7e", K::PageDown), (b"\x1b\x5b\x35\x7e", K::PageUp), (b"\x1b\x5b\x33\x7e", K::Delete), (b"\x1b\x5b\x32\x7e", K::Insert), (b"\x1b\x5b\x5b\x41", K::F(1)), (b"\x1b\x5b\x5b\x42", K::F(2)), (b"\x1b\x5b\x5b\x43", K::F(3)), (b"\x1b\x5b\x5b\x44", K::F(4)), (b"\x1b\x5b\x5b\x45", K::F(5)), (b"\x1b\x5b\x31\x37\x7e", K::F(6)), (b"\x1b\x5b\x31\x38\x7e", K::F(7)), (b"\x1b\x5b\x31\x39\x7e", K::F(8)), (b"\x1b\x5b\x32\x30\x7e", K::F(9)), (b"\x1b\x5b\x32\x31\x7e", K::F(10)), (b"\x1b\x5b\x32\x33\x7e", K::F(11)), (b"\x1b\x5b\x32\x34\x7e", K::F(12))] },
Term { name: "screen-256color", bold: true, sitm: false, rev: true, smul: true, setaf: true, setab: true, smkx: true, rmkx: true, smcup: true, rmcup: true, csr: true, home: true, cup: true, clear: true, el: true, ed: true, cuu1: true, cuu: true, cud: true, cub1: true, cub: true, cuf1: true, cuf: true, civis: true, cnorm: true, sgr0: true, keys: &[(b"\x1b\x4f\x41", K::Up), (b"\x1b\x4f\x42", K::Down), (b"\x1b\x4f\x44", K::Left), (b"\x1b\x4f\x43", K::Right), (b"\x1b\x5b\x31\x7e", K::Home), (b"\x1b\x5b\x34\x7e", K::End), (b"\x1b\x5b\x36\x7e", K::PageDown), (b"\x1b\x5b\x35\x7e", K::PageUp), (b"\x1b\x5b\x33\x7e", K::Delete), (b"\x1b\x5b\x32\x7e", K::Insert), (b"\x1b\x4f\x50", K::F(1)), (b"\x1b\x4f\x51", K::F(2)), (b"\x1b\x4f\x52", K::F(3)), (b"\x1b\x4f\x53", K::F(4)), (b"\x1b\x5b\x31\x35\x7e", K::F(5)), (b"\x1b\x5b\x31\x37\x7e", K::F(6)), (b"\x1b\x5b\x31\x38\x7e", K::F(7)), (b"\x1b\x5b\x31\x39\x7e", K::F(8)), (b"\x1b\x5b\x32\x30\x7e", K::F(9)), (b"\x1b\x5b\x32\x31\x7e", K::F(10)), (b"\x1b\x5b\x32\x33\x7e", K::F(11)), (b"\x1b\x5b\x32\x34\x7e", K::F(12))] },
Term { name: "tmux-256color", bold: true, sitm: true, rev: true, smul: true, setaf: true, setab: true, smkx: true, rmkx: true, smcup: true, rmcup: true, csr: true, home: true, cup: true, clear: true, el: true, ed: true, cuu1: true, cuu: true, cud: true, cub1: true, cub: true, cuf1: true, cuf: true, civis: true, cnorm: true, sgr0: true, keys: &[(b"\x1b\x4f\x41", K::Up), (b"\x1b\x4f\x42", K::Down), (b"\x1b\x4f\x44", K::Left), (b"\x1b\x4f\x43", K::Right), (b"\x1b\x5b\x31\x7e", K::Home), (b"\x1b\x5b\x34\x7e", K::End), (b"\x1b\x5b\x36\x7e", K::PageDown), (b"\x1b\x5b\x35\x7e", K::PageUp), (b"\x1b\x5b\x33\x7e", K::Delete), (b"\x1b\x5b\x32\x7e", K::Insert), (b"\x1b\x4f\x50", K::F(1)), (b"\x1b\x4f\x51", K::F(2)), (b"\x1b\x4f\x52", K::F(3)), (b"\x1b\x4f\x53", K::F(4)), (b"\x1b\x5b\x31\x35\x7e", K::F(5)), (b"\x1b\x5b\x31\x37\x7e", K::F(6)), (b"\x1b\x5b\x31\x38\x7e", K::F(7)), (b"\x1b\x5b\x31\x39\x7e", K::F(8)), (b"\x1b\x5b\x32\x30\x7e", K::F(9)), (b"\x1b\x5b\x32\x31\x7e", K::F(10)), (b"\x1b\x5b\x32\x33\x7e", K::F(11)), (b"\x1b\x5b\x32\x34\x7e", K::F(12))] },
Term { name: "rxvt-unicode-256color", bold: true, sitm: true, rev: true, smul: true, setaf: true, setab: true, smkx: true, rmkx: true, smcup: true, rmcup: true, csr: true, home: true, cup: true, clear: true, el: true, ed: true, cuu1: true, cuu: true, cud: true, cub1: true, cub: true, cuf1: true, cuf: true, civis: true, cnorm: true, sgr0: true, keys: &[(b"\x1b\x5b\x41", K::Up), (b"\x1b\x5b\x42", K::Down), (b"\x1b\x5b\x44", K::Left), (b"\x1b\x5b\x43", K::Right), (b"\x1b\x5b\x37\x7e", K::Home), (b"\x1b\x5b\x38\x7e", K::End), (b"\x1b\x5b\x36\x7e", K::PageDown), (b"\x1b\x5b\x35\x7e", K::PageUp), (b"\x1b\x5b\x33\x7e", K::Delete), (b"\x1b\x5b\x32\x7e", K::Insert), (b"\x1b\x5b\x31\x31\x7e", K::F(1)), (b"\x1b\x5b\x31\x32\x7e", K::F(2)), (b"\x1b\x5b\x31\x33\x7e", K::F(3)), (b"\x1b\x5b\x31\x34\x7e", K::F(4)), (b"\x1b\x5b\x31\x35\x7e", K::F(5)), (b"\x1b\x5b\x31\x37\x7e", K::F(6)), (b"\x1b\x5b\x31\x38\x7e", K::F(7)), (b"\x1b\x5b\x31\x39\x7e", K::F(8)), (b"\x1b\x5b\x32\x30\x7e", K::F(9)), (b"\x1b\x5b\x32\x31\x7e", K::F(10)), (b"\x1b\x5b\x32\x33\x7e", K::F(11)), (b"\x1b\x5b\x32\x34\x7e", K::F(12))] },
Term { name: "rxvt", bold: true, sitm: false, rev: true, smul: true, setaf: true, setab: true, smkx: true, rmkx: true, smcup: true, rmcup: true, csr: true, home: true, cup: true, clear: true, el: true, ed: true, cuu1: true, cuu: true, cud: true, cub1: true, cub: true, cuf1: true, cuf: true, civis: true, cnorm: true, sgr0: true, keys: &[(b"\x1b\x5b\x41", K::Up), (b"\x1b\x5b\x42", K::Down), (b"\x1b\x5b\x44", K::Left), (b"\x1b\x5b\x43", K::Right), (b"\x1b\x5b\x37\x7e", K::Home), (b"\x1b\x5b\x38\x7e", K::End), (b"\x1b\x5b\x36\x7e", K::PageDown), (b"\x1b\x5b\x35\x7e", K::PageUp), (b"\x1b\x5b\x33\x7e", K::Delete), (b"\x1b\x5b\x32\x7e", K::Insert), (b"\x1b\x5b\x31\x31\x7e", K::F(1)), (b"\x1b\x5b\x31\x32\x7e", K::F(2)), (b"\x1b\x5b\x31\x33\x7e", K::F(3)), (b"\x1b\x5b\x31\x34\x7e", K::F(4)), (b"\x1b\x5b\x31\x35\x7e", K::F(5)), (b"\x1b\x5b\x31\x37\x7e", K::F(6)), (b"\x1b\x5b\x31\x38\x7e", K::F(7)), (b"\x1b\x5b\x31\x39\x7e", K::F(8)), (b"\x1b\x5b\x32\x30\x7e", K::F(9)), (b"\x1b\x5b\x32\x31\x7e", K::F(10)), (b"\x1b\x5b\x32\x33\x7e", K::F(11)), (b"\x1b\x5b\x32\x34\x7e", K::F(12))] },
Term { name: "dumb", bold: false, sitm: false, rev: false, smul: false, setaf: false, setab: false, smkx: false, rmkx: false, smcup: false, rmcup: false, csr: false, home: false, cup: false, clear: false, el: false, ed: false, cuu1: false, cuu: false, cud: false, cub1: false, cub: false, cuf1: false, cuf: false, civis: false, cnorm: false, sgr0: false, keys: &[] },
Term { name: "vt220", bold: true, sitm: false, rev: true, smul: true, setaf: false, setab: false, smkx: false, rmkx: false, smcup: false, rmcup: false, csr: true, home: true, cup: true, clear: true, el: true, ed: true, cuu1: true, cuu: true, cud: true, cub1: true, cub: true, cuf1: true, cuf: true, civis: true, cnorm: true, sgr0: true, keys: &[(b"\x1b\x5b\x41", K::Up), (b"\x1b\x5b\x42", K::Down), (b"\x1b\x5b\x44", K::Left), (b"\x1b\x5b\x43", K::Right), (b"\x1b\x5b\x36\x7e", K::PageDown), (b"\x1b\x5b\x35\x7e", K::PageUp), (b"\x1b\x5b\x33\x7e", K::Delete), (b"\x1b\x5b\x32\x7e", K::Insert), (b"\x1b\x4f\x50", K::F(1)), (b"\x1b\x4f\x51", K::F(2)), (b"\x1b\x4f\x52", K::F(3)), (b"\x1b\x4f\x53", K::F(4)), (b"\x1b\x5b\x31\x37\x7e", K::F(6)), (b"\x1b\x5b\x31\x38\x7e", K::F(7)), (b"\x1b\x5b\x31\x39\x7e", K::F(8)), (b"\x1b\x5b\x32\x30\x7e", K::F(9)), (b"\x1b\x5b\x32\x31\x7e", K::F(10)), (b"\x1b\x5b\x32\x33\x7e", K::F(11)), (b"\x1b\x5b\x32\x34\x7e", K::F(12))] },
Term { name: "xterm-sim", bold: true, sitm: false, rev: true, smul: true, setaf: true, setab: true, smkx: false, rmkx: false, smcup: false, rmcup: false, csr: true, home: true, cup: true, clear: true, el: true, ed: true, cuu1: true, cuu: true, cud: true, cub1: true, cub: true, cuf1: true, cuf: true, civis: true, cnorm: true, sgr0: true, keys: &[(b"\x1b\x5b\x41", K::Up), (b"\x1b\x5b\x42", K::Down), (b"\x1b\x5b\x44", K::Left), (b"\x1b\x5b\x43", K::Right), (b"\x1b\x5b\x31\x7e", K::Home), (b"\x1b\x5b\x34\x7e", K::End), (b"\x1b\x5b\x36\x7e", K::PageDown), (b"\x1b\x5b\x35\x7e", K::PageUp), (b"\x7f", K::Delete), (b"\x1b\x5b\x32\x7e", K::Insert), (b"\x1b\x5b\x31", K::F(1)), (b"\x1b\x5b\x31\x31", K::F(2)), (b"\x1b\x5b\x31\x31\x7e", K::F(3)), (b"\x1b\x5b\x31\x32\x7e", K::F(4)), (b"\x1b\x4f", K::F(5)), (b"\x1b\x4f\x50", K::F(6)), (b"\x1b\x4f\x50\x51", K::F(7)), (b"\x1b\x5b\x4d", K::F(8)), (b"\x10", K::F(9)), (b"\x10\x10\x61", K::F(10)), (b"\x1b\x45\x1b", K::F(11)), (b"\x1b\x45\x1b\x5b\x42", K::F(12))] },
Term { name: "sim-mini", bold: true, sitm: false, rev: false, smul: false, setaf: false, setab: false, smkx: true, rmkx: true, smcup: false, rmcup: false, csr: true, home: true, cup: true, clear: true, el: false, ed: true, cuu1: false, cuu: false, cud: false, cub1: true, cub: false, cuf1: true, cuf: false, civis: false, cnorm: false, sgr0: true, keys: &[(b"\x1b\x4f\x41", K::Up), (b"\x1b\x4f\x42", K::Down), (b"\x1b\x4f\x44", K::Left), (b"\x1b\x4f\x43", K::Right), (b"\x1b\x5b\x5b\x41", K::F(1)), (b"\x1b\x5b\x5b\x42", K::F(2))] },
Term { name: "sim-noclear", bold: true, sitm: false, rev: false, smul: false, setaf: false, setab: false, smkx: true, rmkx: true, smcup: true, rmcup: true, csr: true, home: true, cup: true, clear: false, el: false, ed: false, cuu1: false, cuu: false, cud: false, cub1: true, cub: false, cuf1: true, cuf: false, civis: true, cnorm: true, sgr0: true, keys: &[(b"\x1b\x4f\x41", K::Up), (b"\x1b\x4f\x42", K::Down), (b"\x1b\x4f\x44", K::Left), (b"\x1b\x4f\x43", K::Right), (b"\x1b\x5b\x5b\x41", K::F(1)), (b"\x1b\x5b\x5b\x42", K::F(2))] },
];
