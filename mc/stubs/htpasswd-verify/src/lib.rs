//! Offline stand-in for the `htpasswd-verify` git dependency: entries are plain `user:password`
//! lines (hash verification itself belongs to the third-party crate, not to the code under check).
use std::collections::HashMap;
use std::marker::PhantomData;
pub struct Htpasswd<'a>(HashMap<String, String>, PhantomData<&'a ()>);
impl Htpasswd<'static> {
    pub fn new_owned(s: &str) -> Self {
        let map = s
            .lines()
            .filter_map(|l| l.trim().split_once(':'))
            .map(|(u, p)| (u.to_string(), p.to_string()))
            .collect();
        Htpasswd(map, PhantomData)
    }
}
impl Htpasswd<'_> {
    pub fn check<S: AsRef<str>>(&self, u: S, p: S) -> bool {
        self.0.get(u.as_ref()).map_or(false, |x| x == p.as_ref())
    }
}
