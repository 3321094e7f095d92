inline int use_Result()
{
	Nz::Result<int, char> ok = Nz::Ok(3), err = Nz::Err('x'); Nz::Result<void, int> v = Nz::Ok();
	auto m = ok.Map([](int i) { return i * 2.0; });
	return ok.GetValue() == 3 && err.GetError() == 'x' && v.IsOk() && m.GetValue() == 6.0 && err.GetValueOr(5) == 5 ? 0 : 1;
}
