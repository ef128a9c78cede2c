local location = require("location")
local O = {}
local function hex(s) return (s:gsub(".", function(c) return string.format("%02x", c:byte()) end)) end
local function unhex(s) return (s:gsub("..", function(c) return string.char(tonumber(c, 16)) end)) end
local function str(v) if v == nil then return "nil" end return "s:" .. hex(v) end
local function int(v) if v == nil then return "nil" end return string.format("i:%.0f", v) end
local function bool(v) return v and "b:1" or "b:0" end
local FLAGS = { location.NETWORK_FLAG_ANONYMOUS_PROXY, location.NETWORK_FLAG_SATELLITE_PROVIDER, location.NETWORK_FLAG_ANYCAST, location.NETWORK_FLAG_DROP }
local function show(x)
	local k = tostring(getmetatable(x).__name)
	if k == "location.Network" then
		local fl = 0
		for i, f in ipairs(FLAGS) do if x:has_flag(f) then fl = fl + (1 << (i - 1)) end end
		return "net " .. str(tostring(x)) .. " " .. str(x:get_country_code()) .. " " .. int(x:get_asn()) .. " " .. int(fl) .. " " .. int(x:get_family())
	elseif k == "location.AS" then return "as " .. int(x:get_number()) .. " " .. str(x:get_name()) .. " " .. str(tostring(x))
	elseif k == "location.Country" then return "country " .. str(x:get_code()) .. " " .. str(x:get_continent_code()) .. " " .. str(x:get_name()) .. " " .. str(tostring(x))
	end
	return "unknown"
end
local function keep(slot, v)
	if v == nil then return "nil" end
	O[slot] = v
	return show(v)
end
local D = location.Database
local ops = {
	open = function(a) O[a[1]] = D.open(a[2]) return "ok" end,
	meta = function(a) local d = O[a[1]] return str(d:get_vendor()) .. " " .. str(d:get_description()) .. " " .. str(d:get_license()) .. " " .. int(d:created_at()) end,
	verify = function(a) return bool(O[a[1]]:verify(a[2])) end,
	as = function(a) return keep(a[1], O[a[2]]:get_as(tonumber(a[3]))) end,
	country = function(a) return keep(a[1], O[a[2]]:get_country(unhex(a[3]))) end,
	lookup = function(a) return keep(a[1], O[a[2]]:lookup(unhex(a[3]))) end,
	list = function(a) O[a[1]] = O[a[2]]:list_networks() return "ok" end,
	next = function(a) return keep(a[2], O[a[1]]()) end,
	all = function(a)
		local t = {}
		for x in O[a[1]] do t[#t + 1] = show(x) end
		return "all " .. table.concat(t, "|")
	end,
	newnet = function(a) return keep(a[1], location.Network.new(unhex(a[2]))) end,
	newas = function(a) return keep(a[1], location.AS.new(tonumber(a[2]))) end,
	newcountry = function(a) return keep(a[1], location.Country.new(unhex(a[2]))) end,
	rp = function(a) if a[2] then return str(O[a[1]]:reverse_pointer(unhex(a[2]))) end return str(O[a[1]]:reverse_pointer()) end,
	subnets = function(a)
		local t = O[a[1]]:subnets()
		return keep(a[2], t[1]) .. " " .. keep(a[3], t[2])
	end,
	eq = function(a) return bool(O[a[1]] == O[a[2]]) end,
	show = function(a) return show(O[a[1]]) end,
	log = function(a)
		LOGGED, HIGHEST, ODD = 0, -1, false
		location.set_log_callback(function(level, message)
			LOGGED = LOGGED + 1
			if level > HIGHEST then HIGHEST = level end
			if type(level) ~= "number" or type(message) ~= "string" or message == "" then ODD = true end
		end)
		location.set_log_level(tonumber(a[1]))
		return "ok"
	end,
	logged = function() return int(LOGGED) .. " " .. int(HIGHEST) .. " " .. bool(ODD) end,
	logbad = function() location.set_log_callback("print") return "ok" end,
	version = function() return str(location.version()) end,
}
local lines = {}
for l in io.lines(PROGRAM) do lines[#lines + 1] = l end
for _, l in ipairs(lines) do
	local idx, spec, rest = l:match("^(%d+);([^;]*);(.*)$")
	local a = {}
	for w in rest:gmatch("%S+") do a[#a + 1] = w end
	local op = table.remove(a, 1)
	if op == "drop" then
		O[a[1]] = nil
		put(idx .. " - ok")
	elseif op == "gc" then
		collectgarbage()
		put(idx .. " - ok")
	else
		local ok, res, f
		local function run()
			arm(spec)
			ok, res = pcall(ops[op], a)
			f = disarm()
		end
		local n = ""
		if op == "rep" then
			op = table.remove(a, 1)
			n = 99
			for j = 1, 3 do
				collectgarbage() collectgarbage()
				local b = blocks()
				for i = 1, 16 do run() end
				collectgarbage() collectgarbage()
				n = math.min(n, blocks() - b)
			end
			n = string.format("%d ", n)
		end
		run()
		put(idx .. " " .. f .. " " .. n .. (ok and res or "err"))
	end
end
O = nil
