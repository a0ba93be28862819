package auth

// C20: roles, groups and users are exactly the documented combination of permissions.

//gov:contract Permission.Implies
func contract_Implies(p Permission, anotherPermission Permission) bool {
	ps, qs := specSplit(p.Scope), specSplit(anotherPermission.Scope)
	vInv("Implies", "levels before i match", func(i int) bool {
		return vForall(0, i, func(k int) bool { return specLevelOK(ps, qs, k) })
	})
	vInv("Implies", "j follows i", func(i, j int) bool {
		return vAnd(vImp(i <= len(ps), j == i), vImp(i > len(ps), j == len(ps)))
	})
	vInv("Implies", "s is the current level", func(i int, s string) bool {
		return vImp(i > 0, s == specLevel(ps, i-1))
	})
	got := p.Implies(anotherPermission)
	vEnsure(got == specImplies(p, anotherPermission), "implies-contract")
	return got
}

func specRoleHas(r Role, p Permission) bool {
	return vAnd(vExists(0, len(r.AllowedPermissions), func(i int) bool { return specImplies(r.AllowedPermissions[i], p) }),
		vForall(0, len(r.DeniedPermissions), func(i int) bool { return !specImplies(r.DeniedPermissions[i], p) }))
}

func specGroupHas(g Group, p Permission) bool {
	return vExists(0, len(g.Roles), func(i int) bool { return specRoleHas(g.Roles[i], p) })
}

func specUserHas(u User, p Permission) bool {
	return vExists(0, len(u.Groups), func(i int) bool { return specGroupHas(u.Groups[i], p) })
}

//gov:opaque specImplies
//gov:contract Role.HasPermission
func contract_RoleHasPermission(r Role, permission Permission) bool {
	vInv("HasPermission", "nothing before i denies", func(i int) bool {
		return vForall(0, i, func(k int) bool { return !specImplies(r.DeniedPermissions[k], permission) })
	})
	vInv("HasPermission", "nothing before i allows", func(i int) bool {
		return vForall(0, i, func(k int) bool { return !specImplies(r.AllowedPermissions[k], permission) })
	})
	got := r.HasPermission(permission)
	vEnsure(got == specRoleHas(r, permission), "role-grants-iff-allowed-and-not-denied")
	return got
}

//gov:opaque specRoleHas
//gov:contract Group.HasPermission
func contract_GroupHasPermission(g Group, permission Permission) bool {
	vInv("HasPermission", "no role before i grants", func(i int) bool {
		return vForall(0, i, func(k int) bool { return !specRoleHas(g.Roles[k], permission) })
	})
	got := g.HasPermission(permission)
	vEnsure(got == specGroupHas(g, permission), "group-grants-iff-some-role-does")
	return got
}

//gov:opaque specGroupHas
func prop_C20_user(u User, permission Permission) {
	vInv("HasPermission", "no group before i grants", func(i int) bool {
		return vForall(0, i, func(k int) bool { return !specGroupHas(u.Groups[k], permission) })
	})
	vAssert(u.HasPermission(permission) == specUserHas(u, permission), "user-grants-iff-some-group-does")
}

//gov:opaque specImplies
func prop_C20_role(r Role, permission Permission) {
	vAssert(r.HasPermission(permission) == specRoleHas(r, permission), "role-grants-iff-allowed-and-not-denied")
}

//gov:opaque specRoleHas
func prop_C20_group(g Group, permission Permission) {
	vAssert(g.HasPermission(permission) == specGroupHas(g, permission), "group-grants-iff-some-role-does")
}

func specGroupRole(g Group, name string) bool {
	return vExists(0, len(g.Roles), func(i int) bool { return g.Roles[i].Name == name })
}

//gov:contract Group.HasRole
func contract_GroupHasRole(g Group, roleName string) bool {
	vInv("HasRole", "no role before i has the name", func(i int) bool {
		return vForall(0, i, func(k int) bool { return g.Roles[k].Name != roleName })
	})
	got := g.HasRole(roleName)
	vEnsure(got == specGroupRole(g, roleName), "group-has-role-iff-contained")
	return got
}

//gov:opaque specGroupRole
func prop_C20_hasRole(u User, g Group, roleName string) {
	vAssert(g.HasRole(roleName) == specGroupRole(g, roleName), "group-has-role-iff-contained")
	vInv("HasRole", "no group before i has the role", func(i int) bool {
		return vForall(0, i, func(k int) bool { return !specGroupRole(u.Groups[k], roleName) })
	})
	vAssert(u.HasRole(roleName) == vExists(0, len(u.Groups), func(i int) bool { return specGroupRole(u.Groups[i], roleName) }), "user-has-role-iff-some-group-has")
}

func genPerm(r *vRand) Permission {
	return Permission{r.oneOf("a", "b", "a/b", "*", "a/*", "*/b", "a/b/c", "b/c"), Access(r.Intn(4))}
}
func genRole(r *vRand) Role {
	x := Role{Name: r.oneOf("r1", "r2", "r3", "")}
	for n := r.Intn(4); n > 0; n-- {
		x.AllowedPermissions = append(x.AllowedPermissions, genPerm(r))
	}
	for n := r.Intn(3); n > 0 && r.boolean(); n-- {
		x.DeniedPermissions = append(x.DeniedPermissions, genPerm(r))
	}
	return x
}
func genGroup(r *vRand) Group {
	x := Group{Name: r.oneOf("g1", "g2", "r1")}
	for n := r.Intn(4); n > 0; n-- {
		x.Roles = append(x.Roles, genRole(r))
	}
	return x
}
func gen_prop_C20_user(r *vRand) (u User, permission Permission) {
	for n := r.Intn(4); n > 0; n-- {
		u.Groups = append(u.Groups, genGroup(r))
	}
	return u, genPerm(r)
}
func gen_prop_C20_role(r *vRand) (Role, Permission)   { return genRole(r), genPerm(r) }
func gen_prop_C20_group(r *vRand) (Group, Permission) { return genGroup(r), genPerm(r) }
func gen_prop_C20_hasRole(r *vRand) (u User, g Group, roleName string) {
	u, _ = gen_prop_C20_user(r)
	return u, genGroup(r), r.oneOf("r1", "r2", "r3", "", "g1", "r4")
}
