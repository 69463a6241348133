fn main() {
    hvs::cli::main()
}
