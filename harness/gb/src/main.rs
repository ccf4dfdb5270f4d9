fn main() {
    git_branchless::commands::main();
}
