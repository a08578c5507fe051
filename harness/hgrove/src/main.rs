#[global_allocator]
static A: symapi::Counting = symapi::Counting;
fn main() {
    symapi::native_main(hgrove::ENTRIES)
}
