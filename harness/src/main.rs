fn main() {
    hv::cli::main()
}
