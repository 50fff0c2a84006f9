//! One face for the text and the bytes API, so that a harness is written once.
use diffy::*;

pub trait Api: ToOwned + PartialEq + AsRef<[u8]> {
    fn of(b: &[u8]) -> &Self;
    fn create<'a>(o: &DiffOptions, a: &'a Self, b: &'a Self) -> Patch<'a, Self>;
    fn create_default<'a>(a: &'a Self, b: &'a Self) -> Patch<'a, Self>;
    fn apply_to(base: &Self, p: &Patch<'_, Self>) -> Result<Vec<u8>, ApplyError>;
    fn parse(s: &Self) -> Result<Patch<'_, Self>, ParsePatchError>;
    fn print(p: &Patch<'_, Self>) -> Vec<u8>;
    fn print_with(f: &PatchFormatter, p: &Patch<'_, Self>) -> Vec<u8>;
    fn merge(o: &MergeOptions, a: &Self, b: &Self, c: &Self) -> Result<Vec<u8>, Vec<u8>>;
    fn merge_default(a: &Self, b: &Self, c: &Self) -> Result<Vec<u8>, Vec<u8>>;
    fn eq_patch(p: &Patch<'_, Self>, q: &Patch<'_, Self>) -> bool;
}

impl Api for str {
    fn of(b: &[u8]) -> &str {
        // the generators only build UTF-8 for this flavour
        unsafe { std::str::from_utf8_unchecked(b) }
    }
    fn create<'a>(o: &DiffOptions, a: &'a str, b: &'a str) -> Patch<'a, str> {
        o.create_patch(a, b)
    }
    fn create_default<'a>(a: &'a str, b: &'a str) -> Patch<'a, str> {
        create_patch(a, b)
    }
    fn apply_to(base: &str, p: &Patch<'_, str>) -> Result<Vec<u8>, ApplyError> {
        apply(base, p).map(String::into_bytes)
    }
    fn parse(s: &str) -> Result<Patch<'_, str>, ParsePatchError> {
        Patch::from_str(s)
    }
    fn print(p: &Patch<'_, str>) -> Vec<u8> {
        p.to_string().into_bytes()
    }
    fn print_with(f: &PatchFormatter, p: &Patch<'_, str>) -> Vec<u8> {
        f.fmt_patch(p).to_string().into_bytes()
    }
    fn merge(o: &MergeOptions, a: &str, b: &str, c: &str) -> Result<Vec<u8>, Vec<u8>> {
        o.merge(a, b, c).map(String::into_bytes).map_err(String::into_bytes)
    }
    fn merge_default(a: &str, b: &str, c: &str) -> Result<Vec<u8>, Vec<u8>> {
        merge(a, b, c).map(String::into_bytes).map_err(String::into_bytes)
    }
    fn eq_patch(p: &Patch<'_, str>, q: &Patch<'_, str>) -> bool {
        p == q
    }
}

impl Api for [u8] {
    fn of(b: &[u8]) -> &[u8] {
        b
    }
    fn create<'a>(o: &DiffOptions, a: &'a [u8], b: &'a [u8]) -> Patch<'a, [u8]> {
        o.create_patch_bytes(a, b)
    }
    fn create_default<'a>(a: &'a [u8], b: &'a [u8]) -> Patch<'a, [u8]> {
        create_patch_bytes(a, b)
    }
    fn apply_to(base: &[u8], p: &Patch<'_, [u8]>) -> Result<Vec<u8>, ApplyError> {
        apply_bytes(base, p)
    }
    fn parse(s: &[u8]) -> Result<Patch<'_, [u8]>, ParsePatchError> {
        Patch::from_bytes(s)
    }
    fn print(p: &Patch<'_, [u8]>) -> Vec<u8> {
        p.to_bytes()
    }
    fn print_with(f: &PatchFormatter, p: &Patch<'_, [u8]>) -> Vec<u8> {
        let mut v = Vec::new();
        let _ = f.write_patch_into(p, &mut v);
        v
    }
    fn merge(o: &MergeOptions, a: &[u8], b: &[u8], c: &[u8]) -> Result<Vec<u8>, Vec<u8>> {
        o.merge_bytes(a, b, c)
    }
    fn merge_default(a: &[u8], b: &[u8], c: &[u8]) -> Result<Vec<u8>, Vec<u8>> {
        merge_bytes(a, b, c)
    }
    fn eq_patch(p: &Patch<'_, [u8]>, q: &Patch<'_, [u8]>) -> bool {
        p == q
    }
}

pub fn opts(ctx: u64) -> DiffOptions {
    let mut o = DiffOptions::new();
    // ctx = 99 means: leave the default
    if ctx != 99 {
        o.set_context_len(ctx as usize);
    }
    o
}
