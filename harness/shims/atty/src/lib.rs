pub enum Stream {
    Stdout,
    Stderr,
    Stdin,
}
pub fn is(_s: Stream) -> bool {
    false
}
