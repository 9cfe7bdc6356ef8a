prop = "P08"
needs = "a turn whose second segment is shorter than its first, with an allowed deviation large enough that the shorter segment limits the blend"
breaks = "the blend of a path overruns the middle of the second segment: the path leaves the allowed deviation and jumps"
edits = [("VirtualRobot/TimeOptimalTrajectory/Path.cpp", "double distance = std::min((start - intersection).norm(), (end - intersection).norm());", "double distance = std::min(startDistance, std::max(startDistance, endDistance));")]
demo = r'''
#include <VirtualRobot/TimeOptimalTrajectory/Path.h>
#include <iostream>
#include <list>
using namespace VirtualRobot;
int main()
{
    Eigen::VectorXd a(2), b(2), c(2), d(2);
    a << 0, 0; b << 4, 0; c << 4, 1; d << 8, 1;
    std::list<Eigen::VectorXd> l; l.push_back(a); l.push_back(b); l.push_back(c); l.push_back(d);
    Path p(l, 2.0);
    double L = p.getLength(), h = L / 2000, worst = 0;
    for (double s = 0; s + h <= L; s += h) worst = std::max(worst, (p.getConfig(s + h) - p.getConfig(s)).norm() / h);
    double top = 0;
    for (double s = 0; s <= L; s += h) top = std::max(top, p.getConfig(s)(1));
    std::cout << "highest point " << top << ", the waypoints reach 1" << std::endl;
    std::cout << "largest step per length: " << worst << std::endl;
    return top < 1 + 1e-6 && worst < 1.01 && (p.getConfig(L) - d).norm() < 1e-6 ? 0 : 1;
}
'''
