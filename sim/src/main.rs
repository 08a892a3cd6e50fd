mod alloc;
mod driver;
mod exec;
mod lin;
mod oracle;
mod scen;
mod special;
mod world;

#[global_allocator]
static GLOBAL: alloc::A = alloc::A;

fn main() {
    simrt::interpose::link_me();
    driver::main();
}
