fn main() {
    conform_crypto::main()
}
