// A network namespace of our own (included by io.cpp and net_e2e.cpp inside their anonymous namespace)
bool own_net = false;

int sys_line(const char* c) { return ::system((std::string(c) + " >/dev/null 2>&1").c_str()); }
void put_file(const char* path, const char* text) {
    FILE* f = fopen(path, "w");
    if (f != nullptr) { fputs(text, f); fclose(f); }
}
void enter_namespace(bool wanted = true) {
    if (!wanted || ::getenv("VERIF_NO_NETNS") != nullptr) return;
    char map[64];
    uint32_t uid = ::getuid(), gid = ::getgid();
    if (::unshare(CLONE_NEWUSER | CLONE_NEWNET) != 0) return;
    put_file("/proc/self/setgroups", "deny");
    snprintf(map, sizeof map, "0 %u 1", uid); put_file("/proc/self/uid_map", map);
    snprintf(map, sizeof map, "0 %u 1", gid); put_file("/proc/self/gid_map", map);
    own_net = sys_line("ip link set lo up && ip link add va type veth peer name va1 && ip link add vb type veth peer name vb1"
                       " && ip addr add 10.7.0.1/24 brd + dev va && ip addr add 10.8.0.1/24 brd + dev vb"
                       " && ip link set va up && ip link set vb up"
                       " && ip route add 224.0.0.0/4 dev va && ip route add 255.255.255.255 dev va") == 0;
}

