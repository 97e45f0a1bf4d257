fn main() {
  for s in ["getrandom", "syscall", "clock_gettime", "statx", "copy_file_range"] { println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol={}", s); }
}
