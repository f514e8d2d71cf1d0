CLI='''
func run(dir string, raw []byte, out string) error {
	in := filepath.Join(dir, "in")
	os.WriteFile(in, raw, 0644)
	cmd := exec.Command(os.Getenv("CLI"), in, out)
	b, err := cmd.CombinedOutput()
	_ = b
	return err
}
'''
EX='( cd "$w/gopath/src/$P/radolan2png" && go build -o "$w/radolan2png" . ) || exit 3\nexport CLI=$w/radolan2png\n'
