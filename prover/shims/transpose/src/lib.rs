//! Stand-in for `transpose`: input is `height` rows of `width` elements.
pub fn transpose<T: Copy>(input: &[T], output: &mut [T], width: usize, height: usize) {
    assert_eq!(input.len(), width * height);
    assert_eq!(output.len(), width * height);
    for r in 0..height {
        for c in 0..width {
            output[c * height + r] = input[r * width + c];
        }
    }
}
pub fn transpose_inplace<T: Copy>(buf: &mut [T], _scratch: &mut [T], width: usize, height: usize) {
    let copy = buf.to_vec();
    transpose(&copy, buf, width, height);
}
