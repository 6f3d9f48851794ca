fn main() {
    dst::main()
}
