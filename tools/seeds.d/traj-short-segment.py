prop = "P07"
needs = "a trajectory with a segment shorter than 0.01 (radians, say), interpolated inside it"
breaks = "Trajectory::interpolate snaps to the start of short segments instead of giving the point at the fraction of the length"
edits = [("VirtualRobot/Trajectory.cpp", "        if (lastLength > 0)\n", "        if (lastLength > 0.01f)\n")]
demo = r'''
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <iostream>
using namespace VirtualRobot;
int main()
{
    RobotPtr r = RobotIO::createRobotFromString("<Robot Type='r' RootNode='a'><RobotNode name='a'><Joint type='revolute'/></RobotNode></Robot>");
    RobotNodeSetPtr rns = RobotNodeSet::createRobotNodeSet(r, "s", std::vector<RobotNodePtr>(1, r->getRobotNode("a")));
    Trajectory t(rns);
    Eigen::VectorXf p(1), x;
    p << 0; t.addPoint(p);
    p << 0.008f; t.addPoint(p);
    t.interpolate(0.5f, x);
    std::cout << "half way: " << x(0) << ", expected 0.004" << std::endl;
    return std::abs(x(0) - 0.004f) < 1e-5 ? 0 : 1;
}
'''
