// The random source: any number may come out of it
pub trait Rng { }
pub struct ThreadRng;
#[verifier::external_body]
pub fn thread_rng() -> (r: ThreadRng) { unimplemented!() }
impl ThreadRng {
    #[verifier::external_body]
    pub fn gen<T>(&mut self) -> (r: T) { unimplemented!() }
}
